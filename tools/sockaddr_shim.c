/* The locked net2 0.2.35 passes a Rust SocketAddrV4 (ip, then port in native
 * order: 6 bytes) to bind and connect as if it were a struct sockaddr_in, which
 * it stopped being in Rust 1.64. This hands the kernel the address that was
 * meant; an address of any other length passes through as it is. */
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <netinet/in.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>

static long meant(long nr, int fd, const void *a, socklen_t len) {
  struct sockaddr_in in;
  if (len == 6) {
    unsigned short port;
    memset(&in, 0, sizeof in);
    in.sin_family = AF_INET;
    memcpy(&in.sin_addr, a, 4);
    memcpy(&port, (const char *)a + 4, 2);
    in.sin_port = htons(port);
    a = &in;
    len = sizeof in;
  }
  return syscall(nr, fd, a, len);
}

int bind(int fd, const struct sockaddr *a, socklen_t len) { return (int)meant(SYS_bind, fd, a, len); }
int connect(int fd, const struct sockaddr *a, socklen_t len) { return (int)meant(SYS_connect, fd, a, len); }
