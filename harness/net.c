/*
 * Preloaded: every host is this one, and port 443 is CSVPP_VERIF_PORT.
 */
#define _GNU_SOURCE
#include <arpa/inet.h>
#include <dlfcn.h>
#include <errno.h>
#include <netdb.h>
#include <netinet/in.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>

int getaddrinfo(const char *host, const char *service, const struct addrinfo *hints, struct addrinfo **res)
{
	int (*real)(const char *, const char *, const struct addrinfo *, struct addrinfo **) =
		(int (*)(const char *, const char *, const struct addrinfo *, struct addrinfo **))dlsym(RTLD_NEXT, "getaddrinfo");
	return real(host ? "127.0.0.1" : host, service, hints, res);
}

int connect(int fd, const struct sockaddr *a, socklen_t n)
{
	int (*real)(int, const struct sockaddr *, socklen_t) =
		(int (*)(int, const struct sockaddr *, socklen_t))dlsym(RTLD_NEXT, "connect");
	struct sockaddr_in in;
	const char *port = getenv("CSVPP_VERIF_PORT");
	if (a->sa_family == AF_INET6) {
		errno = ENETUNREACH;
		return -1;
	}
	if (a->sa_family != AF_INET || n < sizeof in)
		return real(fd, a, n);
	/* nothing else is ever connected to */
	memset(&in, 0, sizeof in);
	in.sin_family = AF_INET;
	in.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	in.sin_port = htons(port ? atoi(port) : 1);
	return real(fd, (struct sockaddr *)&in, sizeof in);
}
