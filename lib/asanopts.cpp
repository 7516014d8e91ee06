extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=1:detect_container_overflow=0:allocator_may_return_null=1:handle_abort=0"; }
extern "C" const char* __ubsan_default_options() { return "abort_on_error=1:print_stacktrace=1"; }
extern "C" const char* __tsan_default_options() { return "abort_on_error=1:halt_on_error=1"; }
