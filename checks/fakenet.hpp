// A network under full control of the harness: replaces the calls of libc used by std::experimental::net
#ifndef FAKENET_HPP
#define FAKENET_HPP
#include "mc.hpp"
#include <deque>
#include <map>
#include <memory>
#include <functional>
#include <vector>
#include <poll.h>
#include <stdarg.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <netinet/in.h>
#include <netdb.h>
#include <unistd.h>
#include <fcntl.h>

#ifndef FAKENET_POINT
#define FAKENET_POINT
#endif
namespace fakenet {

constexpr int firstFd = 20000;

struct Connection {
	std::string toLocal; // Sent by the harness and not yet received by the tested code
	std::string sent; // Everything sent by the tested code
	bool remoteClosed = false, remoteReset = false, localClosed = false;
	bool resetReported = false;
	int sendsAfterClose = 0;
	int fd = -1;
	// How the network behaves
	std::function<long(size_t size)> onSend; // How much to accept, or -errno
	std::function<long(size_t limit)> onReceive; // How much to give at most, or -errno
	std::function<void()> onSent; // Something was sent
	std::function<bool()> onWaiting; // A blocking receive finds nothing, returns if something changed
};
enum Kind { Listener, Socket, PipeRead, PipeWrite };
struct File {
	Kind kind;
	std::shared_ptr<Connection> connection; // None if it's not connected
	std::shared_ptr<int> pipe; // Bytes in it
	bool listening = false;
};
struct Blocked {}; // Thrown if the tested code would wait forever

struct Net {
	std::map<int, File> files;
	std::deque<std::shared_ptr<Connection>> backlog;
	std::deque<int> acceptErrors; // 0 is success
	std::function<void(std::function<bool()> ready)> onWait; // Used instead with threads, has to return when it's ready
	std::function<bool()> onIdle; // The tested code waits in poll(), returns if something changed
	std::function<std::shared_ptr<Connection>(int& error)> onConnect;
	uint64_t polls = 0, sends = 0, receives = 0;
	bool sigpipe = false;
	int accepted = 0;

	int add(File file) {
		int fd = firstFd;
		while (files.count(fd)) fd++; // Like the kernel, the lowest one
		files[fd] = std::move(file);
		return fd;
	}
	std::shared_ptr<Connection> connectClient() {
		auto made = std::make_shared<Connection>();
		backlog.push_back(made);
		return made;
	}
	bool readable(const File& f) const {
		switch (f.kind) {
		case Listener: return f.listening && (!backlog.empty());
		case Socket: return f.connection && (!f.connection->toLocal.empty() || f.connection->remoteClosed || f.connection->remoteReset);
		case PipeRead: return *f.pipe > 0;
		case PipeWrite: return false;
		}
		return false;
	}
};
inline Net* net = nullptr; // Replaced for each execution
struct Use {
	Net made;
	Net* previous = net;
	Use() { net = &made; }
	~Use() { net = previous; }
	Use(const Use&) = delete;
};
inline File* find(int fd) {
	if (fd < firstFd || !net) return nullptr;
	auto found = net->files.find(fd);
	return found == net->files.end() ? nullptr : &found->second;
}
inline int error(int code) { errno = code; return -1; }
} // namespace fakenet

extern "C" {
int pipe(int* fds) {
	using namespace fakenet;
	if (!net) return syscall(SYS_pipe2, fds, 0);
	auto shared = std::make_shared<int>(0);
	fds[0] = net->add({PipeRead, nullptr, shared});
	fds[1] = net->add({PipeWrite, nullptr, shared});
	return 0;
}
ssize_t read(int fd, void* to, size_t size) {
	using namespace fakenet;
	if (fd < firstFd || !net) return syscall(SYS_read, fd, to, size);
	FAKENET_POINT
	File* f = find(fd);
	if (!f || f->kind != PipeRead) return error(EBADF);
	if (*f->pipe == 0) return error(EAGAIN);
	size_t got = std::min<size_t>(size, *f->pipe);
	memset(to, 0, got);
	*f->pipe -= int(got);
	return ssize_t(got);
}
ssize_t write(int fd, const void* from, size_t size) {
	using namespace fakenet;
	if (fd < firstFd || !net) return syscall(SYS_write, fd, from, size);
	FAKENET_POINT
	File* f = find(fd);
	if (!f || f->kind != PipeWrite) return error(EBADF);
	*f->pipe += int(size);
	return ssize_t(size);
}
int close(int fd) {
	using namespace fakenet;
	if (fd < firstFd) return int(syscall(SYS_close, fd));
	FAKENET_POINT
	File* f = find(fd);
	if (!f) return error(EBADF);
	if (f->connection) {
		f->connection->localClosed = true;
		f->connection->fd = -1;
	}
	net->files.erase(fd);
	return 0;
}
int fcntl(int fd, int command, ...) {
	va_list args;
	va_start(args, command);
	long argument = va_arg(args, long);
	va_end(args);
	if (fd < fakenet::firstFd) return int(syscall(SYS_fcntl, fd, command, argument));
	return fakenet::find(fd) ? 0 : fakenet::error(EBADF);
}
int ioctl(int fd, unsigned long request, ...) {
	using namespace fakenet;
	va_list args;
	va_start(args, request);
	void* argument = va_arg(args, void*);
	va_end(args);
	if (fd < firstFd) return int(syscall(SYS_ioctl, fd, request, argument));
	File* f = find(fd);
	if (!f) return error(EBADF);
	if (request == FIONREAD) *static_cast<int*>(argument) = f->connection ? int(f->connection->toLocal.size()) : 0;
	return 0;
}
int socket(int domain, int type, int protocol) {
	using namespace fakenet;
	if (!net) return int(syscall(SYS_socket, domain, type, protocol));
	return net->add({Socket});
}
int bind(int fd, const struct sockaddr* address, socklen_t size) {
	if (fd < fakenet::firstFd) return int(syscall(SYS_bind, fd, address, size));
	return fakenet::find(fd) ? 0 : fakenet::error(EBADF);
}
int listen(int fd, int backlog) {
	using namespace fakenet;
	if (fd < firstFd) return int(syscall(SYS_listen, fd, backlog));
	File* f = find(fd);
	if (!f) return error(EBADF);
	f->kind = Listener;
	f->listening = true;
	return 0;
}
int setsockopt(int fd, int level, int name, const void* value, socklen_t size) {
	if (fd < fakenet::firstFd) return int(syscall(SYS_setsockopt, fd, level, name, value, size));
	return fakenet::find(fd) ? 0 : fakenet::error(EBADF);
}
int accept(int fd, struct sockaddr*, socklen_t*) {
	using namespace fakenet;
	FAKENET_POINT
	File* f = find(fd);
	if (!f) return error(EBADF);
	if (f->kind != Listener) return error(EINVAL);
	if (!net->acceptErrors.empty()) {
		int code = net->acceptErrors.front();
		net->acceptErrors.pop_front();
		if (code) {
			if ((code == ECONNABORTED || code == EPROTO) && !net->backlog.empty()) {
				net->backlog.front()->localClosed = true;
				net->backlog.pop_front();
			}
			return error(code);
		}
	}
	if (net->backlog.empty()) return error(EAGAIN);
	auto connection = net->backlog.front();
	net->backlog.pop_front();
	int made = net->add({Socket, connection});
	connection->fd = made;
	net->accepted++;
	return made;
}
int connect(int fd, const struct sockaddr* address, socklen_t size) {
	using namespace fakenet;
	if (fd < firstFd) return int(syscall(SYS_connect, fd, address, size));
	File* f = find(fd);
	if (!f) return error(EBADF);
	if (f->connection) return error(EISCONN);
	int code = ECONNREFUSED;
	auto made = net->onConnect ? net->onConnect(code) : nullptr;
	if (!made) return error(code);
	f = find(fd);
	f->connection = made;
	made->fd = fd;
	return 0;
}
ssize_t recvmsg(int fd, struct msghdr* message, int flags) {
	using namespace fakenet;
	if (fd < firstFd) return syscall(SYS_recvmsg, fd, message, flags);
	FAKENET_POINT
	File* f = find(fd);
	if (!f) return error(EBADF);
	if (!f->connection) return error(ENOTCONN);
	auto c = f->connection;
	net->receives++;
	while (true) {
		if (c->remoteReset && !c->resetReported) {
			c->toLocal.clear();
			c->resetReported = true;
			return error(ECONNRESET);
		}
		if (!c->toLocal.empty()) break;
		if (c->remoteClosed || c->remoteReset) return 0;
		if (!c->onWaiting || !c->onWaiting()) throw Blocked();
	}
	size_t limit = 0;
	for (size_t i = 0; i < message->msg_iovlen; i++) limit += message->msg_iov[i].iov_len;
	limit = std::min(limit, c->toLocal.size());
	if (c->onReceive) {
		long allowed = c->onReceive(limit);
		if (allowed < 0) return error(int(-allowed));
		limit = std::min<size_t>(limit, allowed);
	}
	size_t done = 0;
	for (size_t i = 0; i < message->msg_iovlen && done < limit; i++) {
		size_t now = std::min(limit - done, message->msg_iov[i].iov_len);
		memcpy(message->msg_iov[i].iov_base, c->toLocal.data() + done, now);
		done += now;
	}
	c->toLocal.erase(0, done);
	return ssize_t(done);
}
ssize_t sendmsg(int fd, const struct msghdr* message, int flags) {
	using namespace fakenet;
	if (fd < firstFd) return syscall(SYS_sendmsg, fd, message, flags);
	FAKENET_POINT
	File* f = find(fd);
	if (!f) return error(EBADF);
	if (!f->connection) return error(ENOTCONN);
	auto c = f->connection;
	net->sends++;
	auto broken = [&] {
		if (!(flags & MSG_NOSIGNAL)) net->sigpipe = true; // Would end the program
		return error(EPIPE);
	};
	if (c->remoteReset) {
		if (!c->resetReported) {
			c->resetReported = true;
			return error(ECONNRESET);
		}
		return broken();
	}
	if (c->remoteClosed && c->sendsAfterClose++ > 0) return broken();
	std::string all;
	for (size_t i = 0; i < message->msg_iovlen; i++) all.append(static_cast<char*>(message->msg_iov[i].iov_base), message->msg_iov[i].iov_len);
	size_t limit = all.size();
	if (c->onSend) {
		long allowed = c->onSend(limit);
		if (allowed < 0) {
			if (allowed == -EPIPE) return broken();
			return error(int(-allowed));
		}
		limit = std::min<size_t>(limit, allowed);
	}
	if (!c->remoteClosed) c->sent.append(all, 0, limit);
	if (c->onSent) c->onSent();
	return ssize_t(limit);
}
int poll(struct pollfd* fds, nfds_t count, int timeout) {
	using namespace fakenet;
	bool fake = false;
	for (nfds_t i = 0; i < count; i++) if (fds[i].fd >= firstFd) fake = true;
	if (!fake || !net) return int(syscall(SYS_poll, fds, count, timeout));
	FAKENET_POINT
	net->polls++;
	auto check = [=] {
		int ready = 0;
		for (nfds_t i = 0; i < count; i++) {
			fds[i].revents = 0;
			File* f = find(fds[i].fd);
			if (!f) fds[i].revents = POLLNVAL;
			else {
				if (net->readable(*f)) fds[i].revents |= POLLIN;
				if (f->kind == Socket && f->connection) {
					fds[i].revents |= POLLOUT;
					if (f->connection->remoteReset) fds[i].revents |= POLLHUP | POLLERR;
				}
				if (f->kind == PipeWrite) fds[i].revents |= POLLOUT;
				fds[i].revents &= fds[i].events | POLLHUP | POLLERR;
			}
			if (fds[i].revents) ready++;
		}
		return ready;
	};
	while (true) {
		int ready = check();
		if (ready || timeout == 0) return ready;
		if (net->onWait) net->onWait([&] { return check() != 0; });
		else if (!net->onIdle || !net->onIdle()) {
			if (timeout > 0) return 0;
			throw Blocked();
		}
	}
}
int getaddrinfo(const char*, const char*, const struct addrinfo*, struct addrinfo** result) {
	struct Both {
		addrinfo info = {};
		sockaddr_in address = {};
	};
	static Both made;
	made.address.sin_family = AF_INET;
	made.address.sin_port = htons(80);
	made.info.ai_family = AF_INET;
	made.info.ai_socktype = SOCK_STREAM;
	made.info.ai_addr = reinterpret_cast<sockaddr*>(&made.address);
	made.info.ai_addrlen = sizeof(made.address);
	*result = &made.info;
	return 0;
}
void freeaddrinfo(struct addrinfo*) {}
}
#endif
