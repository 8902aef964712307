/* native side of vh.h: feeds the solver's values back */
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <unistd.h>
static FILE *vf;
static unsigned long drawn;
uint64_t vh_next(void) {
    unsigned long long v = 0;
    drawn++;
    if (vf == NULL || fscanf(vf, "%llu", &v) != 1)
        v = 0;
    return v;
}
void vh_fail(const char *msg, const char *file, int line) {
    fflush(stdout);
    fprintf(stderr, "REPLAY-VIOLATION %s [%s:%d] after %lu drawn values\n", msg, file, line, drawn);
    _exit(99);
}
void vh_known(const char *label) {
    fprintf(stderr, "REPLAY-KNOWN %s\n", label);
}
void vh_diverged(const char *msg, const char *file, int line) {
    fprintf(stderr, "REPLAY-DIVERGED assumption does not hold: %s [%s:%d] after %lu drawn values\n", msg, file, line, drawn);
    _exit(77);
}
void vh_done(void) {
    fprintf(stderr, "REPLAY-OK\n");
    _exit(0);
}
void vh_main(void);
int main(int argc, char **argv) {
    if (argc > 1) vf = fopen(argv[1], "r");
    vh_main();
    vh_done();
    return 0;
}
