/* Glue for checks that drive one part of the program directly (C files including the program's headers). */
#ifndef MOD_H
#define MOD_H
#include "explore.h"
#include <sys/epoll.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
void mod_reg(const char *prop, void (*f)(void));
#define MOD_REGISTER(P) static void modreg_##P(void); __attribute__((constructor)) static void modctor_##P(void) { mod_reg(#P, modreg_##P); } static void modreg_##P(void)
void mod_begin(void);                      /* start of a path: fresh world, the program's globals as at start-up */
void mod_resnap(void);                     /* take the present globals as the ones every later path starts with */
size_t mod_gsize(void);                     /* the program's globals: size, copy, put back a copy */
void mod_gsave(void *b);
void mod_gload(const void *b);
void mod_set_ms(long long ms);             /* clock, relative to the start */
long mod_blocks(void);                     /* blocks the program holds (pool and malloc) */
void mod_faults(const char *letters);      /* fault classes, see scn_common.cpp; "" disarms */
long mod_injected(void);
void mod_file(const char *path, const void *data, size_t n);
int  mod_listens(int port);                /* sockets listening there */
void mod_statsize(const char *path, size_t n); /* the size stat reports, whatever the content */
int  mod_newfd(void);                      /* an open descriptor that exists only in the simulated kernel */
const char *mod_sink(const char *path, size_t *n);      /* what was written to a log file ("" = standard output) */
extern int (*mod_epoll_hook)(struct epoll_event *ev, int max, int timeout);
extern int (*mod_epollctl_hook)(int op, int fd, struct epoll_event *ev);
extern int (*mod_close_hook)(int fd);
extern ssize_t (*mod_write_hook)(int fd, const void *b, size_t n);
extern ssize_t (*mod_send_hook)(int fd, const void *b, size_t n);          /* -2: not handled */
extern ssize_t (*mod_recv_hook)(int fd, void *b, size_t n, int flags);
extern void *(*mod_malloc_hook)(size_t n);
extern int (*mod_free_hook)(void *p);      /* 1: handled */
#ifdef __cplusplus
}
#endif
#endif
