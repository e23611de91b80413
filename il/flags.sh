# LLVM's ThreadSanitizer instrumentation (every memory access becomes a call), with the runtime of sched.c
export RUSTC_BOOTSTRAP=1
export RUSTFLAGS="-Awarnings -Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer"
