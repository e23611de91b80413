# LLVM SanitizerCoverage: a callback at every control-flow edge, computed index and division
export RUSTFLAGS="-Awarnings -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc -Cllvm-args=-sanitizer-coverage-trace-geps -Cllvm-args=-sanitizer-coverage-trace-divs"
