/* liblua5.4.a is not position independent enough for a shared object: stdin/stdout/stderr must be local symbols */
#include <stdio.h>
extern FILE *__real_stdin,*__real_stdout,*__real_stderr;
#define H __attribute__((visibility("hidden")))
H FILE *__wrap_stdin,*__wrap_stdout,*__wrap_stderr;
__attribute__((constructor)) static void shim_init(void){ __wrap_stdin=__real_stdin; __wrap_stdout=__real_stdout; __wrap_stderr=__real_stderr; }
