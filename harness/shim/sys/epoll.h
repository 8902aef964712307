/* <sys/epoll.h> with the members of epoll_data listed in another order (same union, same layout): CBMC propagates
 * constants through a union only when its first member is an integer. */
#ifndef SHIM_EPOLL_H
#define SHIM_EPOLL_H
#include <stdint.h>
#include <sys/types.h>
#include <bits/types/sigset_t.h>
#define EPOLLIN 0x001u
#define EPOLLPRI 0x002u
#define EPOLLOUT 0x004u
#define EPOLLERR 0x008u
#define EPOLLHUP 0x010u
#define EPOLLRDHUP 0x2000u
#define EPOLLEXCLUSIVE (1u << 28)
#define EPOLLONESHOT (1u << 30)
#define EPOLLET (1u << 31)
#define EPOLL_CTL_ADD 1
#define EPOLL_CTL_DEL 2
#define EPOLL_CTL_MOD 3
#define EPOLL_CLOEXEC 02000000
typedef union epoll_data { uint64_t u64; uint32_t u32; int fd; void *ptr; } epoll_data_t;
struct epoll_event { uint32_t events; epoll_data_t data; } __attribute__((__packed__));
int epoll_create(int);
int epoll_create1(int);
int epoll_ctl(int, int, int, struct epoll_event *);
int epoll_wait(int, struct epoll_event *, int, int);
#endif
