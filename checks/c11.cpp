// C11: HTTP responses are well formed
#include "httpzoo.hpp"
#include "bomba_json_rpc.hpp"
#include "bomba_download_server.hpp"
#include <filesystem>
#include <fstream>
using namespace httpzoo;

struct Setup {
	Getter getter;
	Poster poster;
	HttpServer<> server{getter, poster};
	decltype(server.getSession()) session = server.getSession();
	using Session = decltype(session);
};
static Request request(std::string method, std::string path, std::string body = "", std::optional<std::string> type = std::nullopt, bool close = false, std::string protocol = "HTTP/1.1") {
	Request r;
	r.method = method;
	r.path = path;
	r.protocol = protocol;
	r.body = body;
	r.type = type;
	r.close = close;
	compose(r, Style(), method == "POST" || !body.empty());
	return r;
}
static std::vector<size_t> sizes() {
	std::vector<size_t> r;
	for (size_t i = 0; i < 12; i++) r.push_back(i);
	for (size_t i : {99, 100, 999, 1000, 9999, 10000, 99999, 100000}) r.push_back(i);
	int around = mc::thorough() ? 150 : 6;
	for (int base : {1024, 2048, 3072, 6144, 12288}) { // Also minus the size of the header
		for (int i = -110; i <= around; i++)
			if (i >= -around || mc::thorough() || i < -60) r.push_back(base + i);
	}
	for (size_t i : {50000, 65535, 65536, 1000000}) r.push_back(i);
	return r;
}
// Different kinds of responses of every size
static mc::Register all("responses of all sizes and kinds", 2 * 7 * 4, [] (int u) {
	static const char kinds[] = {'k', 'u', 'K', 'U', 'S', 'L', 'F'};
	static const auto someSizes = sizes();
	size_t from = someSizes.size() * (u / 14) / 4, to = someSizes.size() * (u / 14 + 1) / 4;
	size_t size = someSizes[from + mc::choose(int(to - from))];
	std::string path = std::string("/") + kinds[u / 2 % 7] + (mc::choose(2) ? "0" : "") + std::to_string(size);
	Request first = u % 2 ? request("POST", path, mc::choose(2) ? "extra" : "", mc::choose(2) ? std::optional("t/t") : std::nullopt) : request("GET", path);
	Request second = request("GET", "/k1");
	std::vector<Outcome> outcomes;
	std::vector<std::string> log;
	outcomes.push_back(expect(first, log));
	if (!outcomes[0].closes) outcomes.push_back(expect(second, log));
	mc::describe(first.method + " " + path);
	Setup setup;
	calls.clear();
	Fed<Setup::Session> fed;
	fed.feed(setup.session, first.text + second.text, {});
	if (mc::failed()) return;
	compare(fed.output, fed.dropped, outcomes);
	MC_CHECK(calls == log, "calls", "other requests were passed");
	mc::step(fed.output.size());
	mc::validated();
});
// Sizes with every number of digits
static mc::Register digits("long responses", 2 * 11 + 3, [] (int u) {
	struct Long : IHttpGetResponder, IHttpPostResponder {
		size_t size = 0;
		bool known = false;
		void write(IWriteStarter& writer) {
			auto fill = [&] (GeneralisedBuffer& out) {
				static const std::string part(100000, 'x');
				for (size_t left = size; left > 0;) {
					size_t now = std::min(left, part.size());
					out += std::string_view(part).substr(0, now);
					left -= now;
				}
			};
			if (known) writer.writeKnownSize("text/plain", size, fill);
			else writer.writeUnknownSize("text/plain", fill);
		}
		bool get(std::string_view, IWriteStarter& writer) override { write(writer); return true; }
		bool post(std::string_view, std::string_view, std::span<char>, IWriteStarter& writer) override { write(writer); return true; }
	} made;
	made.known = u % 2;
	int exponent = u / 2;
	bool enormous = u >= 2 * 11; // More than what fits into an int, not kept in memory
	bool post = false;
	if (enormous) {
		static const uint64_t sizes[] = {(1ull << 31) - 1, (1ull << 31) + 5, (1ull << 32) + 5};
		made.known = true;
		made.size = sizes[u - 2 * 11];
	} else {
		if (exponent > (mc::thorough() ? 9 : 8)) return;
		made.size = 1;
		for (int i = 0; i < exponent; i++) made.size *= 10;
		made.size -= mc::choose(3);
		if (int64_t(made.size) < 0) return;
		post = mc::choose(2);
	}
	HttpServer<> server(made, made);
	auto session = server.getSession();
	std::string stream = post ? "POST / HTTP/1.1\r\nContent-Length: 2\r\n\r\nabGET / HTTP/1.1\r\n\r\n" : "GET / HTTP/1.1\r\n\r\nGET / HTTP/1.1\r\n\r\n";
	mc::describe(mc::fmt("%zu bytes, size %s in advance, ", made.size, made.known ? "known" : "not known") + (post ? "POST" : "GET"));
	size_t position = 0;
	for (int i = 0; i < (enormous ? 1 : 2); i++) {
		std::string header;
		size_t contents = 0;
		bool started = false, wrong = false;
		auto [reaction, consumed] = session.respond(std::span<char>(stream.data() + position, stream.size() - position), [&] (std::span<const char> part) {
			std::string_view given(part.data(), part.size());
			if (!started) {
				header += given;
				auto end = header.find("\r\n\r\n");
				if (end == std::string::npos) return;
				started = true;
				given.remove_prefix(given.size() - (header.size() - end - 4));
				header.resize(end + 4);
			}
			contents += given.size();
			static const std::string right(65536, 'x');
			for (size_t i = 0; i < given.size(); i += right.size())
				if (memcmp(given.data() + i, right.data(), std::min(right.size(), given.size() - i)) != 0) wrong = true;
		});
		position += consumed;
		MC_CHECK(reaction == ServerReaction::OK, "reaction", "the request was not accepted");
		std::string emptied = header;
		if (auto place = emptied.find("Content-Length:"); place != std::string::npos) emptied.replace(place + 15, emptied.find("\r\n", place) - place - 15, " 0");
		ResponseParser parsed(emptied);
		MC_CHECK(parsed.problem.empty() && parsed.responses.size() == 1, "malformed-response", parsed.problem + " " + mc::quoted(header));
		if (mc::failed()) return;
		auto from = header.find("Content-Length:");
		std::string line = from == std::string::npos ? "" : header.substr(from + 15, header.find("\r\n", from) - from - 15);
		while (line.starts_with(' ')) line.erase(0, 1);
		while (line.ends_with(' ')) line.pop_back();
		MC_CHECK(line == std::to_string(made.size), "announced-size", "the header is " + mc::quoted(header));
		MC_CHECK(contents == made.size && !wrong, "contents", mc::fmt("%zu bytes were sent", contents));
		if (mc::failed()) return;
		mc::step(mc::mix(made.size, i));
	}
	mc::validated();
});
// All sequences of requests with different results
static const std::vector<std::pair<const char*, const char*>>& outcomesOf() {
	static const std::vector<std::pair<const char*, const char*>> made = {{"GET", "/k3"}, {"GET", "/u3"}, {"GET", "/e"}, {"GET", "/n"}, {"GET", "/x"}, {"GET", "/i"}, {"GET", "/K2000"}, {"GET", "/K0"}, {"GET", "/U3000"}, {"GET", "/U3"}, {"GET", "/F3"}, {"GET", "/k0"}, {"GET", "/u0"},
			{"POST", "/k3"}, {"POST", "/u3"}, {"POST", "/e"}, {"POST", "/n"}, {"POST", "/x"}, {"POST", "/i"}, {"POST", "/K2000"}, {"POST", "/U3000"}, {"POST", "/k0"}, {"POST", "/u0"}, {"PUT", "/k3"}, {"DELETE", "/n"}, {"HEAP", "/x"}};
	return made;
}
static mc::Register sequences("sequences of requests with all results", 26 * 2, [] (int u) {
	std::vector<Outcome> outcomes;
	std::vector<std::string> log;
	std::string stream;
	bool closed = false;
	int count = 1 + mc::choose(3);
	for (int i = 0; i < count; i++) {
		auto [method, path] = outcomesOf()[i == 0 ? u / 2 : mc::choose(26)];
		Request r = request(method, path, std::string(method) == "GET" ? "" : "body", std::nullopt, i == 0 && u % 2, i == 0 && mc::choose(2) ? "HTTP/1.0" : "HTTP/1.1");
		stream += r.text;
		if (!closed) {
			outcomes.push_back(expect(r, log));
			closed = outcomes.back().closes;
		}
	}
	mc::describe(mc::quoted(stream));
	Setup setup;
	calls.clear();
	Fed<Setup::Session> fed;
	fed.feed(setup.session, stream, {});
	if (mc::failed()) return;
	compare(fed.output, fed.dropped, outcomes);
	MC_CHECK(fed.dropped == closed, "ending", fed.dropped ? "the connection was dropped" : "the connection was not dropped");
	MC_CHECK(calls == log, "calls", "other requests were passed");
	mc::validated();
});

// Different buffers for the responses
template <typename Buffer>
static void withBuffer() {
	static const auto someSizes = sizes();
	size_t size = mc::pick(someSizes);
	Request first = request("GET", "/u" + std::to_string(size)), second = request("GET", "/k1");
	std::vector<Outcome> outcomes;
	std::vector<std::string> log;
	outcomes.push_back(expect(first, log));
	outcomes.push_back(expect(second, log));
	Getter getter;
	Poster poster;
	HttpServer<Buffer> server(getter, poster);
	auto session = server.getSession();
	calls.clear();
	mc::describe(first.path);
	Fed<decltype(session)> fed;
	fed.feed(session, first.text + second.text, {});
	if (mc::failed()) return;
	compare(fed.output, fed.dropped, outcomes);
	mc::validated();
}
static mc::Register buffers("responses in other buffers", 5, [] (int u) {
	switch (u) {
	case 0: return withBuffer<ExpandingBuffer<200>>();
	case 1: return withBuffer<ExpandingBuffer<16>>();
	case 2: return withBuffer<ExpandingBuffer<1000>>();
	case 3: return withBuffer<ExpandingBuffer<5000>>();
	case 4: return withBuffer<ExpandingBuffer<200000>>();
	}
});

// Methods called in different ways
struct Wide : RpcObject<Wide> {
	RpcMember<[] (int32_t length = name("length")) {
		if (length < 0) throw std::runtime_error("negative");
		called("produce", length);
		return std::string(size_t(length), 'z');
	}> produce = child<"produce">;
	RpcMember<[] (std::string text = name("text")) { called("eat", text); }> eat = child<"eat">;
	RpcMember<[] { called("flag"); return false; }> flag = child<"flag">;
	RpcMember<[] (int32_t a = name("a")) -> std::vector<int32_t> { called("list", a); return std::vector<int32_t>(size_t(a)); }> list = child<"list">;
};
struct Rpc {
	Wide wide;
	DynamicRpcObject root;
	SimpleGetResponder page;
	DummyGetResponder nothing;
	RpcGetResponder<> getter{nothing, setUp()};
	RpcGetResponder<> pageGetter{page, root};
	HtmlPostResponder<> forms{root};
	JsonRpcServerProtocol<> json{root};
	HttpServer<> formServer{getter, forms};
	HttpServer<> jsonServer{getter, json};
	HttpServer<> pageServer{pageGetter, forms};
	JsonRpcServer<> jsonRpc{root, pageGetter};
	IRemoteCallable& setUp() {
		page.resource = "<html>page</html>";
		page.resourceType = "text/special";
		root.add("wide", RpcLambdaHolder::nonOwning(wide));
		return root;
	}
};
struct Case {
	std::string text;
	int status;
	std::string type; // for 200
	std::string body;
	std::vector<std::string> log;
};
static Case rpcCase(int which, size_t size) {
	auto post = [] (std::string path, std::string type, std::string body) {
		return "POST " + path + " HTTP/1.1\r\nContent-Length: " + std::to_string(body.size()) + (type.empty() ? "" : "\r\nContent-Type: " + type) + "\r\n\r\n" + body;
	};
	auto get = [] (std::string path) { return "GET " + path + " HTTP/1.1\r\n\r\n"; };
	const std::string form = "application/x-www-form-urlencoded", json = "application/json";
	std::string z(size, 'z');
	auto jsonCall = [&] (std::string method, std::string params) { return post("/", json, "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"" + method + "\",\"params\":" + params + "}"); };
	switch (which) { // 0 to 7 concern GET and forms
	case 0: return {get("/wide/produce?length=" + std::to_string(size)), 200, form, z, {callText("produce", int32_t(size))}};
	case 1: return {get("/wide/produce?length=-1"), 500, "", "", {}};
	case 2: return {get("/wide/flag?"), 200, form, "false", {callText("flag")}};
	case 3: return {get("/wide/eat?text=" + z), 200, form, "", {callText("eat", z)}};
	case 4: return {get("/wide/none?x=1"), 404, "", "", {}};
	case 5: return {get("/wide?x=1"), 404, "", "", {}};
	case 6: return {get("/" + z), 404, "", "", {}};
	case 7: return {get("/wide/list?a=3"), 500, "", "", {callText("list", int32_t(3))}}; // Can't be written
	case 8: return {post("/wide/eat", form, "text=" + z), 204, "", "", {callText("eat", z)}};
	case 9: return {post("/wide/produce", form, "length=-5"), 500, "", "", {}};
	case 10: return {post("/wide/produce", form, "length=" + std::to_string(size)), 204, "", "", {callText("produce", int32_t(size))}};
	case 11: return {post("/wide/none", form, "x=" + z), 400, "", "", {}};
	case 12: return {post("/", form, z), 400, "", "", {}};
	case 13: return {post("/wide/flag", "", ""), 204, "", "", {callText("flag")}};
	case 14: return {post("/wide", "", ""), 400, "", "", {}};
	// With JSON-RPC
	case 15: return {jsonCall("wide.produce", "{\"length\":" + std::to_string(size) + "}"), 200, json, "\"" + z + "\"", {callText("produce", int32_t(size))}};
	case 16: return {jsonCall("wide.produce", "{\"length\":-1}"), 200, json, "\"error\"", {}};
	case 17: return {jsonCall("wide.flag", "{}"), 200, json, "false", {callText("flag")}};
	case 18: return {jsonCall("wide.none", "{}"), 200, json, "\"error\"", {}};
	case 19: return {jsonCall("wide.list", "{\"a\":2}"), 200, json, "\"result\"", {callText("list", int32_t(2))}};
	case 20: return {jsonCall("wide.eat", "{\"text\":\"" + z + "\"}"), 200, json, "\"result\"", {callText("eat", z)}};
	case 21: return {post("/", json, z), size ? 400 : 400, "", "", {}};
	case 22: return {post("/", "text/plain", "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"wide.flag\"}"), 400, "", "", {}};
	case 23: return {post("/", json, "{" + z), 200, json, "\"error\"", {}};
	case 24: return {post("/", json, "[]"), 200, json, "{", {}};
	case 25: return {post("/", json, "{\"jsonrpc\":\"2.0\",\"method\":\"wide.flag\"}"), 200, json, "", {callText("flag")}};
	}
	abort();
}
static mc::Register rpc("methods called through servers", 26 * 26, [] (int u) {
	Rpc rpc;
	static const size_t lengths[] = {0, 1, 2, 900, 1023, 1024, 2048, 2950, 2990, 3000, 3072, 6100, 20000};
	int which[2] = {u / 26, u % 26};
	std::vector<Case> cases;
	for (int it : which) cases.push_back(rpcCase(it, mc::pick(lengths)));
	bool hasForm = (which[0] >= 8 && which[0] < 15) || (which[1] >= 8 && which[1] < 15);
	bool hasJson = which[0] >= 15 || which[1] >= 15;
	if (hasForm && hasJson) return;
	auto run = [&] (auto session) {
		calls.clear();
		std::vector<std::string> log;
		std::string stream;
		for (auto& it : cases) {
			stream += it.text;
			log.insert(log.end(), it.log.begin(), it.log.end());
		}
		mc::describe(mc::quoted(stream, 300));
		Fed<decltype(session)> fed;
		fed.feed(session, stream, {});
		if (mc::failed()) return;
		ResponseParser parsed(fed.output);
		MC_CHECK(parsed.problem.empty() && parsed.rest.empty(), "malformed-response", parsed.problem + " in " + mc::quoted(fed.output, 300));
		MC_CHECK(parsed.responses.size() == 2, "count", mc::fmt("there are %zu responses to two requests", parsed.responses.size()));
		MC_CHECK(!fed.dropped, "ending", "the connection was dropped");
		if (mc::failed()) return;
		for (int i = 0; i < 2; i++) {
			auto& got = parsed.responses[i];
			MC_CHECK(got.status == cases[i].status, "status", "the response to " + mc::quoted(cases[i].text, 200) + " is " + got.text() + mc::fmt(" instead of %d", cases[i].status));
			if (cases[i].status == 200) {
				MC_CHECK(got.type == cases[i].type, "type", "the type of the response to " + mc::quoted(cases[i].text, 200) + " is " + got.type.value_or("none"));
				if (cases[i].type == "application/json") {
					if (!got.body.empty()) {
						zoo::Node node;
						zoo::StrictJson parser(got.body);
						MC_CHECK(parser.document(node), "json", "the response is not valid JSON: " + mc::quoted(got.body, 200));
					}
					MC_CHECK(got.body.find(cases[i].body) != std::string::npos, "body", "the response to " + mc::quoted(cases[i].text, 200) + " is " + mc::quoted(got.body, 200));
				} else MC_CHECK(got.body == cases[i].body, "body", "the response to " + mc::quoted(cases[i].text, 200) + " has body " + mc::quoted(got.body, 200));
			}
		}
		MC_CHECK(calls == log, "calls", mc::fmt("%zu methods were run instead of %zu", calls.size(), log.size()));
		mc::validated();
	};
	if (hasJson) {
		if (mc::choose(2)) run(rpc.jsonServer.getSession());
		else if (which[0] == 6 || which[1] == 6 || which[0] == 4 || which[1] == 4 || which[0] == 5 || which[1] == 5) {}
		else if (which[0] <= 7 || which[1] <= 7) {}
		else run(rpc.jsonRpc.getSession());
	} else run(rpc.formServer.getSession());
});
static mc::Register page("methods called with a page as response", 4, [] (int u) {
	Rpc rpc;
	static const char* paths[] = {"/", "/wide/flag?", "/wide/eat?text=x", "/any/thing?x=5"};
	std::string path = paths[u];
	auto session = rpc.pageServer.getSession();
	calls.clear();
	Fed<decltype(session)> fed;
	std::string other = paths[mc::choose(4)];
	mc::describe(path + " " + other);
	fed.feed(session, "GET " + path + " HTTP/1.1\r\n\r\nGET " + other + " HTTP/1.1\r\n\r\n", {});
	ResponseParser parsed(fed.output);
	MC_CHECK(parsed.problem.empty() && parsed.rest.empty() && parsed.responses.size() == 2, "malformed-response", parsed.problem);
	if (mc::failed()) return;
	for (auto& it : parsed.responses) MC_CHECK((it == Response{200, "text/special", "<html>page</html>"}), "page", it.text());
	mc::validated();
});

// Files
static std::string folder;
struct Folder {
	Folder() {
		folder = "/tmp/bomba_c11_" + std::to_string(getpid()) + "_" + std::to_string(time(nullptr));
		std::filesystem::create_directories(folder);
	}
	~Folder() { std::filesystem::remove_all(folder); }
};
static mc::Register files("files", 2 * 20, [] (int u) {
	static const size_t lengths[] = {0, 1, 9, 10, 99, 100, 900, 940, 960, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 10000, 100000, 1000000};
	Folder made;
	std::string contents = content(lengths[u / 2]);
	std::ofstream(folder + "/file.html", std::ios::binary) << contents;
	std::ofstream(folder + "/index.html", std::ios::binary) << "index";
	static const char* paths[] = {"/file.html", "/none.html", "/", "/file", "/file.htm"};
	std::vector<int> which = {mc::choose(5), mc::choose(5)};
	auto run = [&] (auto& files) {
		HttpServer<> server(files);
		auto session = server.getSession();
		std::string stream;
		for (int it : which) stream += std::string("GET ") + paths[it] + " HTTP/1.1\r\n\r\n";
		mc::describe(mc::quoted(stream));
		Fed<decltype(session)> fed;
		fed.feed(session, stream, {});
		ResponseParser parsed(fed.output);
		MC_CHECK(parsed.problem.empty() && parsed.rest.empty() && parsed.responses.size() == 2, "malformed-response", parsed.problem + mc::fmt(" %zu responses", parsed.responses.size()));
		if (mc::failed()) return;
		for (int i = 0; i < 2; i++) {
			auto& got = parsed.responses[i];
			if (which[i] == 0) MC_CHECK((got == Response{200, "text/html", contents}), "file", "wrong response with a file: " + got.text());
			else if (which[i] == 2) MC_CHECK((got == Response{200, "text/html", "index"}), "index", "wrong response with the index: " + got.text());
			else MC_CHECK(got.status == 404, "missing", "wrong response to a missing file: " + got.text());
		}
		mc::validated();
	};
	if (u % 2) {
		CachingFileServer served(folder);
		run(served);
	} else {
		DynamicFileServer served(folder);
		run(served);
	}
});
