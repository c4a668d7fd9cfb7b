// C10: HTTP requests are answered once, in order, however they arrive
#include "httpzoo.hpp"
#include "bomba_json_rpc.hpp"
using namespace httpzoo;

struct Setup {
	Getter getter;
	Poster poster;
	HttpServer<> server{getter, poster};
	decltype(server.getSession()) session = server.getSession();
	using Session = decltype(session);
};

// The expected outcomes of a sequence of requests, and of a cut one
struct Expected {
	std::vector<Outcome> outcomes;
	std::vector<std::string> log;
	std::vector<size_t> ends; // of requests
	bool closed = false;
	std::string stream;
	void add(const Request& r) {
		stream += r.text;
		if (closed) return;
		outcomes.push_back(expect(r, log));
		ends.push_back(stream.size());
		closed = outcomes.back().closes;
	}
	Expected cutAt(size_t length) const {
		Expected r;
		r.stream = stream.substr(0, length);
		for (size_t i = 0; i < ends.size() && ends[i] <= length; i++) {
			r.outcomes.push_back(outcomes[i]);
			r.ends.push_back(ends[i]);
			if (i < log.size()) r.closed = outcomes[i].closes;
		}
		size_t logged = 0;
		for (auto& it : r.outcomes) if (it.response.status != 501) logged++;
		r.log.assign(log.begin(), log.begin() + logged);
		return r;
	}
};
static std::vector<size_t> chunked(size_t total, size_t chunk) {
	std::vector<size_t> r;
	for (size_t i = chunk; i < total; i += chunk) r.push_back(i);
	return r;
}
static std::string exchange(const Expected& e, const std::vector<size_t>& cuts) {
	Setup setup;
	calls.clear();
	Fed<Setup::Session> fed;
	fed.feed(setup.session, e.stream, cuts);
	if (mc::failed()) return "";
	compare(fed.output, fed.dropped, e.outcomes);
	MC_CHECK(calls == e.log, "calls", mc::fmt("%zu requests were passed instead of %zu, the last being ", calls.size(), e.log.size()) + (calls.empty() ? "none" : mc::quoted(calls.back(), 200)));
	MC_CHECK(fed.dropped == e.closed, "ending", fed.dropped ? "the connection was dropped" : "the connection was not dropped");
	if (!e.closed) {
		size_t unread = e.stream.size() - (e.ends.empty() ? 0 : e.ends.back());
		MC_CHECK(fed.unread.size() == unread, "unread", mc::fmt("%zu bytes are left unread instead of %zu", fed.unread.size(), unread));
	}
	mc::validated();
	return fed.output;
}
static std::vector<size_t> anyCuts(size_t total, bool pairs) {
	std::vector<size_t> r;
	size_t first = mc::choose(int(total) + 1);
	if (first == 0) return r;
	if (first == total) { // Equal chunks
		return chunked(total, 1 + mc::choose(12));
	}
	r.push_back(first);
	if (pairs) {
		size_t second = first + mc::choose(int(total - first));
		if (second != first) r.push_back(second);
	}
	return r;
}

// Short requests, differing in everything that the parser keeps
static Request common(int which) {
	Request r;
	r.protocol = "HTTP/1.1";
	Style s;
	switch (which) {
	case 0: r.method = "GET"; r.path = "/k5"; break;
	case 1: r.method = "POST"; r.path = "/k0"; r.body = "ab"; r.type = "a/b"; break;
	case 2: r.method = "POST"; r.path = "/u3"; r.body = "\r\nGET /k1 HTTP/1.1\r\n\r\n"; break;
	case 3: r.method = "GET"; r.path = "/n"; r.body = "body"; r.type = "x/y"; break;
	case 4: r.method = "PUT"; r.path = "/k2"; r.body = "GET /k1 HTTP/1.1\r\n\r\n"; break;
	case 5: r.method = "GET"; r.path = "/x"; r.protocol = "HTTP/1.0"; break;
	case 6: r.method = "POST"; r.path = "/e"; r.type = "t"; break; // Size 0
	case 7: r.method = "GET"; r.path = "/k3"; r.close = true; break;
	case 8: r.method = "GET"; r.path = "/K7"; break;
	case 9: r.method = "GET"; r.path = "/k9"; r.protocol = "HTTP/2"; break;
	case 10: r.method = "POST"; r.path = "/n"; r.body = "x"; r.close = true; break;
	case 11: r.method = "GET"; r.path = "/k1"; s.before = {"Host: a.b:80", "x:y"}; s.after = {"Accept: */*", "Z:"}; break;
	case 12: r.method = "POST"; r.path = "/u1"; r.body = "0123456789"; s.lengthName = "content-LENGTH"; s.colon = ":"; s.lengthSuffix = "  "; s.typeFirst = true; r.type = "q"; s.typeName = "CONTENT-type"; break;
	}
	compose(r, s, r.method != "GET" || !r.body.empty());
	return r;
}
constexpr int commonCount = 13;

static mc::Register one("a request in up to three chunks", commonCount, [] (int u) {
	Expected e;
	e.add(common(u));
	auto cuts = anyCuts(e.stream.size(), true);
	mc::describe(mc::quoted(e.stream) + mc::fmt(" in %zu chunks", cuts.size() + 1));
	exchange(e, cuts);
});
static mc::Register two("two requests in up to two chunks", commonCount * commonCount, [] (int u) {
	Expected e;
	e.add(common(u / commonCount));
	e.add(common(u % commonCount));
	auto cuts = anyCuts(e.stream.size(), mc::thorough());
	mc::describe(mc::quoted(e.stream) + mc::fmt(" in %zu chunks", cuts.size() + 1));
	std::string output = exchange(e, cuts);
	if (mc::failed() || cuts.empty()) return;
	MC_CHECK(exchange(e, {}) == output, "depends-on-chunks", "the responses differ from those to the same requests in one chunk");
});
static mc::Register three("three requests whole or byte by byte", commonCount * commonCount, [] (int u) {
	Expected e;
	e.add(common(u / commonCount));
	e.add(common(u % commonCount));
	e.add(common(mc::choose(commonCount)));
	if (mc::thorough()) e.add(common(mc::choose(commonCount)));
	auto cuts = mc::choose(2) ? chunked(e.stream.size(), 1) : std::vector<size_t>();
	mc::describe(mc::quoted(e.stream) + mc::fmt(" in %zu chunks", cuts.size() + 1));
	exchange(e, cuts);
});
static mc::Register incomplete("incomplete requests", commonCount * commonCount, [] (int u) {
	Expected whole;
	whole.add(common(u / commonCount));
	whole.add(common(u % commonCount));
	Expected e = whole.cutAt(mc::choose(int(whole.stream.size())));
	auto cuts = mc::choose(2) ? chunked(e.stream.size(), 1) : std::vector<size_t>();
	mc::describe(mc::quoted(e.stream) + mc::fmt(" in %zu chunks", cuts.size() + 1));
	exchange(e, cuts);
});

// All forms of requests
static Request anyForm(int method, bool longer) {
	static const std::string paths[] = {"/k4", "/u0", "/n", "/e", "/x", "/k1?a=b&c=%20+d", "/", "/k2/../x//y", "x", "/n\xc3\xa1~!@#$%^&*()"};
	static const std::string bodies[] = {"", "x", "\r\n", "\r\n\r\n", "POST / HTTP/1.1\r\nContent-Length: 1\r\n\r\nx", std::string("\0\xff\n: ", 5)};
	Request r;
	r.method = methods()[method];
	r.path = mc::pick(paths);
	static const std::string protocols[] = {"HTTP/1.1", "HTTP/1.0", "HTTP/0.9", "HTTP/1.1x", ""};
	r.protocol = protocols[mc::chooseDev(5)];
	if (r.protocol.empty()) r.protocol = "SPDY";
	r.body = bodies[mc::choose(longer ? 6 : 3)];
	Style s;
	bool sendLength = r.method == "POST" || !r.body.empty() || mc::choose(2);
	if (mc::choose(2)) r.type = "application/json";
	static const std::string lengthNames[] = {"Content-Length", "content-length", "CONTENT-LENGTH", "cOnTeNt-LeNgTh"};
	s.lengthName = lengthNames[mc::chooseDev(4)];
	static const std::string typeNames[] = {"Content-Type", "content-type", "CONTENT-TYPE"};
	s.typeName = typeNames[mc::chooseDev(3)];
	static const std::string colons[] = {": ", ":", ":  ", ":\t", " : ", "\t:\t "};
	s.colon = colons[mc::chooseDev(6)];
	static const std::string suffixes[] = {"", " ", "\t", "    "};
	s.lengthSuffix = suffixes[mc::chooseDev(4)];
	s.typeFirst = mc::chooseDev(2);
	static const std::vector<std::string> others[] = {{}, {"Host: localhost:80"}, {"Connection: keep-alive"}, {"X-Content-Length: 50"}, {"Content-Length-X: 50"}, {"Accept:"}, {"A:b", "C: d: e", "F:\tg"}, {"content: Content-Length: 3"},
		{"X: " + std::string(5000, 'y')}, {std::string(3000, 'N') + ": v"}, {"U: \xff\xfe"}, {"Content-Typ: x/y"}, {"Content-Types: x/y"}, {"Connectio: close"}, {"X: Connection: close"}};
	s.before = others[mc::chooseDev(15)];
	s.after = others[mc::chooseDev(15)];
	r.close = mc::chooseDev(2);
	compose(r, s, sendLength);
	return r;
}
static mc::Register forms("forms of requests followed by another", 8 * 4, [] (int u) {
	Expected e;
	static const int followers[] = {0, 1, 4, 3};
	e.add(anyForm(u / 4, true));
	e.add(common(followers[u % 4]));
	int chunking = mc::choose(e.stream.size() > 1000 ? 1 : 2);
	auto cuts = chunking ? chunked(e.stream.size(), 1) : std::vector<size_t>();
	mc::describe(mc::quoted(e.stream) + mc::fmt(" in %zu chunks", cuts.size() + 1));
	exchange(e, cuts);
}, 1);
static mc::Register cutForms("forms of requests cut anywhere", 8, [] (int u) {
	Expected e;
	e.add(anyForm(u, false));
	e.add(common(1));
	if (e.stream.size() > 1000) return;
	auto cuts = std::vector<size_t>{size_t(mc::choose(int(e.stream.size())))};
	mc::describe(mc::quoted(e.stream) + mc::fmt(" cut at %zu", cuts[0]));
	exchange(e, cuts);
}, 1);
static mc::Register sizes("sizes of bodies", 24, [] (int u) {
	static const size_t all[] = {0, 1, 9, 10, 11, 99, 100, 999, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 3071, 3072, 3073, 6143, 6144, 6145, 65535, 65536, 200000};
	Expected e;
	Request r;
	r.method = mc::choose(2) ? "POST" : "GET";
	r.protocol = "HTTP/1.1";
	r.path = mc::choose(2) ? "/k1" : "/u1";
	r.body = content(all[u]);
	static const std::string zeroes[] = {"", "0", "00000"};
	Style s;
	s.colon += mc::pick(zeroes);
	compose(r, s, true);
	size_t headers = r.text.size() - r.body.size();
	e.add(r);
	e.add(common(mc::choose(2)));
	std::vector<size_t> cuts;
	switch (mc::choose(8)) {
	case 0: break;
	case 1: cuts = {headers}; break;
	case 2: cuts = {headers - 1, headers + r.body.size() / 2, r.text.size() - 1}; break;
	case 3: cuts = {r.text.size()}; break;
	case 4: cuts = {r.text.size() - 1}; break;
	case 5: cuts = {r.text.size() + 1}; break;
	case 6: cuts = chunked(e.stream.size(), e.stream.size() > 20000 ? 2048 : 100); break;
	case 7: cuts = {headers - 2, headers - 1, headers, headers + 1}; break;
	}
	std::sort(cuts.begin(), cuts.end());
	mc::describe(mc::fmt("%s with body of %zu bytes in %zu chunks", r.method.c_str(), all[u], cuts.size() + 1));
	exchange(e, cuts);
});

// Real responders: any request gives the same response after any other request as on its own
struct Real {
	Calc calc;
	DynamicRpcObject root;
	SimpleGetResponder page;
	RpcGetResponder<> getter{page, setUp()};
	HtmlPostResponder<> forms{root};
	JsonRpcServerProtocol<> json{root};
	HttpServer<> formServer{getter, forms};
	HttpServer<> jsonServer{getter, json};
	IRemoteCallable& setUp() {
		page.resource = "<html>page</html>";
		root.add("calc", RpcLambdaHolder::nonOwning(calc));
		return root;
	}
	using Session = decltype(formServer.getSession());
};
static std::string realRequest(int which) {
	auto post = [] (std::string path, std::string type, std::string body) {
		return "POST " + path + " HTTP/1.1\r\nContent-Length: " + std::to_string(body.size()) + (type.empty() ? "" : "\r\nContent-Type: " + type) + "\r\n\r\n" + body;
	};
	switch (which) {
	case 0: return "GET /calc/add?a=5&b=3 HTTP/1.1\r\n\r\n";
	case 1: return "GET /calc/echo?text=hello+there HTTP/1.1\r\nHost: x\r\n\r\n";
	case 2: return post("/calc/note", "application/x-www-form-urlencoded", "text=noted");
	case 3: return post("/", "application/json", "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"calc.add\",\"params\":{\"a\":1,\"b\":2}}");
	case 4: return post("/", "", "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"calc.add\",\"params\":{\"a\":1,\"b\":2}}");
	case 5: return "GET / HTTP/1.1\r\n\r\n";
	case 6: return post("/calc/fail", "application/x-www-form-urlencoded", "value=-3");
	case 7: return "GET /calc/fail?value=-3 HTTP/1.1\r\n\r\n";
	case 8: return post("/calc/nothing", "", "");
	case 9: return post("/calc/stop", "", "");
	}
	abort();
}
constexpr int realCount = 10;
static mc::Register real("requests to real responders after others", realCount * realCount * 2, [] (int u) {
	int kind = u % 2, first = u / 2 / realCount, second = u / 2 % realCount;
	auto run = [&] (const std::string& stream, std::vector<size_t> cuts, std::string& output, std::vector<std::string>& log) {
		Real real;
		auto session = kind ? real.formServer.getSession() : real.jsonServer.getSession();
		calls.clear();
		Fed<Real::Session> fed;
		fed.feed(session, stream, cuts);
		output = fed.output;
		log = calls;
		ResponseParser parsed(output);
		MC_CHECK(parsed.problem.empty() && parsed.rest.empty(), "malformed-response", parsed.problem + " in " + mc::quoted(output));
		return !fed.dropped && fed.unread.empty();
	};
	std::string requests[3] = {realRequest(first), realRequest(second), realRequest(mc::choose(realCount))};
	std::string expected;
	std::vector<std::string> expectedLog;
	for (auto& it : requests) {
		std::string output;
		std::vector<std::string> log;
		MC_CHECK(run(it, {}, output, log), "single", "a single request was not answered entirely");
		ResponseParser parsed(output);
		MC_CHECK(parsed.responses.size() == 1, "single", "a single request has another number of responses");
		expected += output;
		expectedLog.insert(expectedLog.end(), log.begin(), log.end());
	}
	std::string stream = requests[0] + requests[1] + requests[2], output;
	std::vector<std::string> log;
	std::vector<size_t> cuts;
	int cut = mc::choose(int(stream.size()));
	if (cut == 1) cuts = chunked(stream.size(), 1);
	else if (cut) cuts = {size_t(cut)};
	mc::describe(mc::quoted(stream) + mc::fmt(" cut at %d", cut));
	MC_CHECK(run(stream, cuts, output, log), "sequence", "the sequence was not answered entirely");
	MC_CHECK(output == expected, "influenced", "the responses are " + mc::quoted(output) + " but on their own they were " + mc::quoted(expected));
	MC_CHECK(log == expectedLog, "influenced-calls", "the calls differ");
	mc::validated();
});
