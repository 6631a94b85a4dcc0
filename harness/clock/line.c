/* Preloaded into the program under test: notes how a terminal line is set up (a pseudo terminal
 * does not keep all of it), one c_cflag after the other, in the file whose descriptor LINE_FD names. */
#define _GNU_SOURCE
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <sys/syscall.h>
#include <termios.h>
#include <unistd.h>

static void note(uint32_t cflag) {
    char *fd = getenv("LINE_FD");
    if (fd)
        (void)!write(atoi(fd), &cflag, sizeof cflag);
}

int ioctl(int fd, unsigned long req, ...) {
    va_list l;
    va_start(l, req);
    void *arg = va_arg(l, void *);
    va_end(l);
    int r = syscall(SYS_ioctl, fd, req, arg);
    req = (uint32_t)req;
    if (r == 0 && ((req >= 0x5402 && req <= 0x5404) || (req >= 0x402C542B && req <= 0x402C542D)))
        note(((uint32_t *)arg)[2]);
    return r;
}

int tcsetattr(int fd, int action, const struct termios *t) {
    /* The kernel's structure begins like the library's. */
    struct { uint32_t flags[4]; uint8_t line, cc[19]; uint32_t more[8]; } k = { { 0 } };
    k.flags[0] = t->c_iflag & 0x7fffffff;
    k.flags[1] = t->c_oflag;
    k.flags[2] = t->c_cflag;
    k.flags[3] = t->c_lflag;
    k.line = t->c_line;
    for (int i = 0; i < 19; i++)
        k.cc[i] = t->c_cc[i];
    int r = syscall(SYS_ioctl, fd, 0x5402 + action, &k);
    if (r == 0)
        note(t->c_cflag);
    return r;
}
