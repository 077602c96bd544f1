/* Forced into shl-pty.c: every system call goes to the kernel model of
 * p_pty.c. */
#ifndef VPSYS_H
#define VPSYS_H
#include <errno.h>
#include <fcntl.h>
#include <pty.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/epoll.h>
#include <sys/ioctl.h>
#include <sys/uio.h>
#include <termios.h>
#include <unistd.h>
ssize_t vp_read(int fd, void *buf, size_t n);
ssize_t vp_write(int fd, const void *buf, size_t n);
ssize_t vp_writev(int fd, const struct iovec *v, int n);
ssize_t vp_readv(int fd, const struct iovec *v, int n);
int vp_ptsname_r(int fd, char *b, size_t n);
int vp_sigaction(int n, const struct sigaction *a, struct sigaction *o);
int vp_close(int fd);
int vp_open(const char *path, int flags, ...);
int vp_ioctl(int fd, unsigned long req, unsigned long arg);
int vp_posix_openpt(int flags);
int vp_pipe2(int *fds, int flags);
pid_t vp_fork(void);
pid_t vp_setsid(void);
int vp_dup2(int a, int b);
int vp_grantpt(int fd);
int vp_unlockpt(int fd);
char *vp_ptsname(int fd);
int vp_tcgetattr(int fd, struct termios *t);
int vp_tcsetattr(int fd, int how, const struct termios *t);
int vp_sigprocmask(int how, const sigset_t *s, sigset_t *o);
void (*vp_signal(int n, void (*h)(int)))(int);
int vp_epoll_create1(int flags);
int vp_epoll_ctl(int ep, int op, int fd, struct epoll_event *ev);
int vp_epoll_wait(int ep, struct epoll_event *ev, int n, int t);
void vp_exit(int code) __attribute__((noreturn));
#ifndef VPSYS_IMPL
#define read(a, b, c) vp_read(a, b, c)
#define write(a, b, c) vp_write(a, b, c)
#define writev(a, b, c) vp_writev(a, b, c)
#define close(a) vp_close(a)
#define readv(a, b, c) vp_readv(a, b, c)
#define open(...) vp_open(__VA_ARGS__)
#define ptsname_r(a, b, c) vp_ptsname_r(a, b, c)
#define _exit(a) vp_exit(a)
#define _Exit(a) vp_exit(a)
#define dup3(a, b, c) vp_dup2(a, b)
#undef sigfillset
#define sigfillset(a) (memset(a, 255, sizeof(sigset_t)), 0)
#define ioctl(a, b, c) vp_ioctl(a, b, (unsigned long)(c))
#define posix_openpt(a) vp_posix_openpt(a)
#define pipe2(a, b) vp_pipe2(a, b)
#define fork() vp_fork()
#define setsid() vp_setsid()
#define dup2(a, b) vp_dup2(a, b)
#define grantpt(a) vp_grantpt(a)
#define unlockpt(a) vp_unlockpt(a)
#define ptsname(a) vp_ptsname(a)
#define tcgetattr(a, b) vp_tcgetattr(a, b)
#define tcsetattr(a, b, c) vp_tcsetattr(a, b, c)
#define sigprocmask(a, b, c) vp_sigprocmask(a, b, c)
#undef sigemptyset
#define sigemptyset(a) (memset(a, 0, sizeof(sigset_t)), 0)
#define signal(a, b) vp_signal(a, b)
#define epoll_create1(a) vp_epoll_create1(a)
#define epoll_ctl(a, b, c, d) vp_epoll_ctl(a, b, c, d)
#define epoll_wait(a, b, c, d) vp_epoll_wait(a, b, c, d)
#define exit(a) vp_exit(a)
#endif
#endif
