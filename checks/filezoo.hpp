// Scratch folders with files, and watched opening of files
#ifndef FILEZOO_HPP
#define FILEZOO_HPP
#include "mc.hpp"
#include "zoo.hpp"
#include "bomba_core.hpp"
#include "bomba_http.hpp"
#include "bomba_download_server.hpp"
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <map>
#include <optional>
#include <stdarg.h>
#include <stdio.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

#ifndef FILEZOO_POINT
#define FILEZOO_POINT // Done at every operation with files
#endif

namespace filezoo {
using namespace Bomba;

// A folder that is removed at the end. run.py removes also what remains after crashes
struct Scratch {
	std::string path;
	Scratch() {
		const char* where = getenv("MC_SCRATCH");
		std::string made = std::string(where && *where ? where : "/tmp") + "/files_XXXXXX";
		if (!mkdtemp(made.data())) { perror("mkdtemp"); _exit(3); }
		char* real = realpath(made.c_str(), nullptr);
		path = real;
		free(real);
	}
	Scratch(const Scratch&) = delete;
	~Scratch() {
		std::error_code ignored;
		if (path.find("/files_") != std::string::npos) std::filesystem::remove_all(path, ignored);
	}
	void put(const std::string& name, std::string_view content) const {
		std::string full = path + "/" + name;
		for (size_t i = path.size() + 1; i < full.size(); i++)
			if (full[i] == '/') mkdir(full.substr(0, i).c_str(), 0755);
		int fd = int(syscall(SYS_openat, AT_FDCWD, full.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644));
		size_t written = 0;
		while (fd >= 0 && written < content.size()) {
			ssize_t now = syscall(SYS_write, fd, content.data() + written, content.size() - written);
			if (now <= 0) break;
			written += now;
		}
		if (fd < 0 || written < content.size()) { perror(full.c_str()); _exit(3); }
		syscall(SYS_close, fd);
	}
	void erase(const std::string& name) const { unlink((path + "/" + name).c_str()); }
};

// Which files are opened, everything outside is refused
struct Watch {
	std::string inside;
	std::vector<std::string> opened, escaped;
	std::function<int(const std::string& path)> refuse; // Makes opening fail with an error number
	std::function<long(int fd, size_t size)> onRead; // How much to read, or -errno
	explicit Watch(std::string inside);
	~Watch();
	int attempt(int folder, const char* path) {
		std::string full = path;
		if (full.empty() || full[0] != '/') {
			char base[PATH_MAX];
			std::string link = folder == AT_FDCWD ? "/proc/self/cwd" : mc::fmt("/proc/self/fd/%d", folder);
			ssize_t size = readlink(link.c_str(), base, sizeof(base));
			full = std::string(base, size > 0 ? size : 0) + "/" + full;
		}
		std::string real;
		if (char* got = realpath(full.c_str(), nullptr)) {
			real = got;
			free(got);
		} else real = std::filesystem::path(full).lexically_normal().string();
		opened.push_back(real);
		if (real != inside && !real.starts_with(inside + "/")) {
			escaped.push_back(full);
			return ENOENT;
		}
		return refuse ? refuse(real) : 0;
	}
};
inline Watch* watch = nullptr;
inline Watch::Watch(std::string inside) : inside(std::move(inside)) { watch = this; }
inline Watch::~Watch() { watch = nullptr; }

inline bool blocked(int folder, const char* path) {
	Watch* now = watch;
	if (!now) return false;
	watch = nullptr; // Not watching itself
	int error = now->attempt(folder, path);
	watch = now;
	if (error) errno = error;
	return error != 0;
}

// What a download server does with a request
struct Answer : IWriteStarter {
	int written = 0;
	std::string type, body;
	bool known = false;
	int64_t size = -1;
	void writeUnknownSize(std::string_view resourceType, Callback<void(GeneralisedBuffer&)> filler) override {
		written++;
		type = resourceType;
		auto append = [this] (std::span<const char> chunk) { body.append(chunk.data(), chunk.size()); };
		NonOwningStreamingBuffer<1024> writer(append);
		filler(writer);
		writer.flush();
	}
	void writeKnownSize(std::string_view resourceType, int64_t knownSize, Callback<void(GeneralisedBuffer&)> filler) override {
		known = true;
		size = knownSize;
		writeUnknownSize(resourceType, filler);
	}
};

struct Silence {
	std::streambuf* previous = std::cout.rdbuf(nullptr);
	~Silence() { std::cout.rdbuf(previous); std::cout.clear(); }
};
} // namespace filezoo

extern "C" {
#define FILEZOO_MODE mode_t mode = 0; if (flags & (O_CREAT | O_TMPFILE)) { va_list args; va_start(args, flags); mode = va_arg(args, mode_t); va_end(args); }
#define FILEZOO_OPEN(NAME) \
int NAME(const char* path, int flags, ...) { \
	static auto next = reinterpret_cast<int (*)(const char*, int, ...)>(dlsym(RTLD_NEXT, #NAME)); \
	FILEZOO_MODE \
	FILEZOO_POINT \
	if (filezoo::blocked(AT_FDCWD, path)) return -1; \
	return next(path, flags, mode); \
}
#define FILEZOO_OPENAT(NAME) \
int NAME(int folder, const char* path, int flags, ...) { \
	static auto next = reinterpret_cast<int (*)(int, const char*, int, ...)>(dlsym(RTLD_NEXT, #NAME)); \
	FILEZOO_MODE \
	FILEZOO_POINT \
	if (filezoo::blocked(folder, path)) return -1; \
	return next(folder, path, flags, mode); \
}
FILEZOO_OPEN(open)
FILEZOO_OPEN(open64)
FILEZOO_OPENAT(openat)
FILEZOO_OPENAT(openat64)
FILE* fopen(const char* path, const char* mode) {
	static auto next = reinterpret_cast<FILE* (*)(const char*, const char*)>(dlsym(RTLD_NEXT, "fopen"));
	FILEZOO_POINT
	if (filezoo::blocked(AT_FDCWD, path)) return nullptr;
	return next(path, mode);
}
FILE* fopen64(const char* path, const char* mode) {
	static auto next = reinterpret_cast<FILE* (*)(const char*, const char*)>(dlsym(RTLD_NEXT, "fopen64"));
	FILEZOO_POINT
	if (filezoo::blocked(AT_FDCWD, path)) return nullptr;
	return next(path, mode);
}
DIR* opendir(const char* path) {
	static auto next = reinterpret_cast<DIR* (*)(const char*)>(dlsym(RTLD_NEXT, "opendir"));
	FILEZOO_POINT
	if (filezoo::blocked(AT_FDCWD, path)) return nullptr;
	return next(path);
}
dirent* readdir(DIR* folder) {
	static auto next = reinterpret_cast<dirent* (*)(DIR*)>(dlsym(RTLD_NEXT, "readdir"));
	FILEZOO_POINT
	return next(folder);
}
ssize_t read(int fd, void* data, size_t size) {
	FILEZOO_POINT
	if (filezoo::watch && filezoo::watch->onRead) {
		long now = filezoo::watch->onRead(fd, size);
		if (now < 0) { errno = int(-now); return -1; }
		size = std::min<size_t>(size, now);
	}
	static auto next = reinterpret_cast<ssize_t (*)(int, void*, size_t)>(dlsym(RTLD_NEXT, "read"));
	return next(fd, data, size);
}
}
#endif
