// The JavaScript client run by Node.js under control of the check
#ifndef JSZOO_HPP
#define JSZOO_HPP
#include "httpzoo.hpp"
#include "bomba_json_rpc.hpp"
#include "bomba_json_wsp_description.hpp"
#include "bomba_dynamic_object.hpp"
#include <unistd.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/prctl.h>

namespace jszoo {
using namespace httpzoo;

inline std::string jsonText(std::string_view text) {
	std::string r = "\"";
	for (unsigned char c : text) {
		if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
		else if (c < 0x20) r += mc::fmt("\\u%04x", c);
		else r += char(c);
	}
	return r + "\"";
}
inline std::string pathText(const std::vector<std::string>& path) {
	std::string r = "[";
	for (auto& it : path) r += (r.size() > 1 ? "," : "") + jsonText(it);
	return r + "]";
}

struct Driver {
	pid_t owner = getpid(), child = 0;
	int in = -1, out = -1;
	std::string buffered;
	Driver() {
		const char* scratch = getenv("MC_SCRATCH");
		const char* repo = getenv("BOMBA_REPO");
		std::string folder = std::string(scratch ? scratch : "/tmp") + mc::fmt("/js%d", int(owner));
		mkdir(folder.c_str(), 0700);
		std::string source = std::string(repo ? repo : "/repo") + "/public_html/bomba.js";
		std::string driver = __FILE__;
		driver = driver.substr(0, driver.rfind('/')) + "/js_driver.mjs";
		int toChild[2], fromChild[2];
		if (pipe2(toChild, O_CLOEXEC) || pipe2(fromChild, O_CLOEXEC)) abort();
		signal(SIGPIPE, SIG_IGN);
		child = fork();
		if (child == 0) {
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			dup2(toChild[0], 0);
			dup2(fromChild[1], 1);
			execlp("node", "node", "--max-old-space-size=400", "--single-threaded-gc", driver.c_str(), source.c_str(), folder.c_str(), (char*)nullptr);
			_exit(127);
		}
		close(toChild[0]);
		close(fromChild[1]);
		in = toChild[1];
		out = fromChild[0];
	}
	// Makes the client do something, returns what happened
	std::vector<Node> operator()(std::string command) {
		command += '\n';
		for (size_t done = 0; done < command.size();) {
			ssize_t written = write(in, command.data() + done, command.size() - done);
			if (written <= 0) return lost("can't be written to");
			done += written;
		}
		size_t end;
		while ((end = buffered.find('\n')) == std::string::npos) {
			char part[65536];
			ssize_t got = read(out, part, sizeof(part));
			if (got <= 0) return lost("ended");
			buffered.append(part, got);
		}
		std::string line = buffered.substr(0, end);
		buffered.erase(0, end + 1);
		StrictJson json(line);
		Node n;
		if (!json.document(n) || n.kind != Node::Arr) return lost("answered nonsense " + mc::quoted(line, 300));
		for (auto& it : n.a) if (name(it) == "driver") return lost("failed: " + it.a[1].s);
		return n.a;
	}
	std::vector<Node> lost(std::string why) {
		fprintf(stderr, "Node.js %s\n", why.c_str());
		mc::fail("driver", "Node.js " + why);
		return {};
	}
	static std::string name(const Node& event) { return event.kind == Node::Arr && event.a.size() && event.a[0].kind == Node::Str ? event.a[0].s : "?"; }
};
inline Driver& driver() { // One for every process
	static Driver* instance = nullptr;
	if (!instance || instance->owner != getpid()) instance = new Driver();
	return *instance;
}

// A request the client has sent
struct Sent {
	int index = 0;
	std::string where, url, method, type, body;
};
inline std::string showEvents(const std::vector<Node>& events) {
	std::string r;
	for (auto& it : events) {
		r += Driver::name(it) + "(";
		for (size_t i = 1; i < it.a.size(); i++) r += (i > 1 ? ", " : "") + (it.a[i].kind == Node::Str ? mc::quoted(it.a[i].s, 300) : show(it.a[i]));
		r += ") ";
	}
	return r.empty() ? "nothing" : r;
}
inline bool isSent(const std::vector<Node>& events, Sent& sent) { // Only that
	if (events.size() != 1 || Driver::name(events[0]) != "fetch" || events[0].a.size() != 7) return false;
	auto& a = events[0].a;
	sent = {int(a[1].i), a[2].s, a[3].s, a[4].s, a[5].s, a[6].s};
	return true;
}

// Posts something to the server as the network would
inline bool exchange(JsonRpcServer<>& server, std::string_view body, int& status, std::string& response) {
	auto session = server.getSession();
	std::string request = mc::fmt("POST / HTTP/1.1\r\nContent-Type: application/json\r\nContent-Length: %zu\r\n\r\n", body.size()) + std::string(body);
	Exact exact(request);
	std::string out;
	session.respond(exact.span(), [&] (std::span<const char> written) { out.append(written.data(), written.size()); });
	ResponseParser parser(out);
	if (!parser.problem.empty() || parser.responses.size() != 1) return false;
	status = parser.responses[0].status;
	response = parser.responses[0].body;
	return true;
}

// Loads the API, gives the event of loading
inline std::optional<Node> load(const std::string& description, std::string mode = "browser", const char* path = nullptr, std::string url = "api_description.json") {
	Sent sent;
	auto events = driver()("[\"load\"," + jsonText(mode) + "," + (path ? jsonText(path) : "null") + "]");
	bool asked = isSent(events, sent);
	MC_CHECK(asked && sent.method == "GET" && sent.url == url && sent.where == mode, "description-asked", "loading does " + showEvents(events) + " instead of downloading " + url);
	if (mc::failed()) return std::nullopt;
	events = driver()(mc::fmt("[\"answer\",%d,200,", sent.index) + jsonText(description) + "]");
	MC_CHECK(events.size() == 1 && Driver::name(events[0]) == "loaded" && events[0].a.size() == 4, "loading", "loading ended with " + showEvents(events) + " from " + mc::quoted(description, 1500));
	if (mc::failed()) return std::nullopt;
	return events[0];
}
} // namespace jszoo
#endif
