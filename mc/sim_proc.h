#pragma once
#include <signal.h>
struct ProcHooks {
    virtual ~ProcHooks() {}
    virtual int fork() = 0;
    virtual int kill(int pid, int sig) = 0;
    virtual int waitpid(int pid, int *st, int opt) = 0;
    virtual void sigaction(int sig, const struct sigaction *sa) = 0;
    virtual int sigprocmask(int how, const sigset_t *s, sigset_t *o) = 0;
    virtual int sigsuspend(const sigset_t *s) = 0;
    virtual int getpid() = 0;
    virtual unsigned alarm(unsigned) { return 0; }
    virtual int wait(const sigset_t *) { return 0; }      /* entering epoll_wait; -1: interrupted */
};
extern ProcHooks *PH;
