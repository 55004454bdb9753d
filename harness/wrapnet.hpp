/* Real descriptors with tiny kernel buffers, and delays around the I/O system calls, so that short reads and writes,
 * would-block and reordering of readiness actually happen. Link with WN_WRAP. */
#pragma once
#include "vh.hpp"
#include <atomic>
#include <sys/socket.h>
#include <sys/uio.h>
#include <signal.h>
#include <time.h>
static bool wn_small = false; static std::atomic<int> wn_delay{0}; static std::atomic<uint64_t> wn_calls{0}, wn_again{0}, wn_rng{1};
static void wn_case(uint64_t seed, bool small) { wn_small = small; wn_rng = seed; wn_delay = vh_chance(50) ? 0 : (int)vh_range(1, 100); }
static void wn_flush() { vh_count("io_syscalls", wn_calls.exchange(0)); vh_count("io_eagain", wn_again.exchange(0)); }
static inline uint64_t wn_r() { uint64_t z = wn_rng.fetch_add(0x9E3779B97F4A7C15ULL, std::memory_order_relaxed); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; return z ^ (z >> 29); }
static inline void wn_pt() { wn_calls.fetch_add(1, std::memory_order_relaxed); int d = wn_delay.load(std::memory_order_relaxed); if (d && (int)(wn_r() % 1000) < d) { int e = errno; struct timespec ts = { 0, (long)(wn_r() % 300) * 1000 }; nanosleep(&ts, NULL); errno = e; } }
extern "C" {
int __real_socket(int, int, int); int __real_accept4(int, struct sockaddr *, socklen_t *, int); int __real_pipe2(int *, int);
ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t); ssize_t __real_recv(int, void *, size_t, int); ssize_t __real_send(int, const void *, size_t, int);
static void wn_shrink(int fd) { if (fd >= 0 && wn_small) { int a = 1024 + (int)(wn_r() % 8000), b = 1024 + (int)(wn_r() % 8000); setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &a, sizeof a); setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &b, sizeof b); } }
int __wrap_socket(int d, int t, int p) { int fd = __real_socket(d, t, p); int e = errno; wn_shrink(fd); errno = e; return fd; }
int __wrap_accept4(int s, struct sockaddr *a, socklen_t *l, int f) { wn_pt(); int fd = __real_accept4(s, a, l, f); int e = errno; wn_shrink(fd); errno = e; return fd; }
int __wrap_pipe2(int *p, int f) { int r = __real_pipe2(p, f); int e = errno; if (r == 0 && wn_small) fcntl(p[1], F_SETPIPE_SZ, 4096); errno = e; return r; }
static inline ssize_t wn_ret(ssize_t r) { if (r < 0 && (errno == EAGAIN || errno == EWOULDBLOCK)) wn_again.fetch_add(1, std::memory_order_relaxed); return r; }
ssize_t __wrap_read(int fd, void *b, size_t n) { wn_pt(); return wn_ret(__real_read(fd, b, n)); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { wn_pt(); return wn_ret(__real_write(fd, b, n)); }
ssize_t __wrap_recv(int fd, void *b, size_t n, int f) { wn_pt(); return wn_ret(__real_recv(fd, b, n, f)); }
ssize_t __wrap_send(int fd, const void *b, size_t n, int f) { wn_pt(); return wn_ret(__real_send(fd, b, n, f)); }
}
