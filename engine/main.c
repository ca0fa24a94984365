void sym_harness(void);
extern char __start_symfns[] __attribute__((weak)), __stop_symfns[] __attribute__((weak));
int symrt_main(int, char **, void (*)(void), const void *, const void *);
int main(int argc, char **argv) { return symrt_main(argc, argv, sym_harness, __start_symfns, __stop_symfns); }
