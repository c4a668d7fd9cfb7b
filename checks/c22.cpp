// C22: The file server never leaves its folder
#include "mc.hpp"
#include "zoo.hpp"
#include "filezoo.hpp"
#include "httpzoo.hpp"
using namespace Bomba;
using namespace filezoo;

// outer/root is served, there are similar files around it
static const std::vector<std::string>& files() {
	static const std::vector<std::string> made = {"index.html", "a", "b/a", "b/index.html", "b/b/a", "b/ab", "a.", "a..", "b/a.b", "ab.a", "%2e", "%2f", "b/%2e%2e", "b/~", "c\\a", "a b"};
	return made;
}
static const std::vector<std::string>& hidden() {
	static const std::vector<std::string> made = {".a", "b/.a", "..a", ".b/a"};
	return made;
}
struct Place {
	Scratch scratch;
	std::string root = scratch.path + "/outer/root";
	std::map<std::string, std::string> contents;
	Place() {
		for (auto& it : files()) scratch.put("outer/root/" + it, contents[it] = "inside " + it);
		for (auto& it : hidden()) scratch.put("outer/root/" + it, "hidden " + it);
		for (std::string folder : {"", "outer/", "outer/rootb/", "outer/roota", "outer/root.", "outer/b/", "outer/b/b/", "b/"})
			for (std::string it : {"index.html", "a", "secret", "b/a", "ab", "a.", ".a"}) scratch.put(folder + it, "SECRET " + it);
	}
};
static Place& place() {
	static Place made;
	return made;
}

enum Kind { Dynamic, Caching };
static const char* kindName(int kind) { return kind == Dynamic ? "DynamicFileServer" : "CachingFileServer"; }
struct Servers {
	std::unique_ptr<DynamicFileServer> dynamic;
	std::unique_ptr<CachingFileServer> caching;
	explicit Servers(const std::string& root) {
		Watch watch(place().root);
		dynamic = std::make_unique<DynamicFileServer>(root);
		caching = std::make_unique<CachingFileServer>(root);
		dynamic->addGeneratedFile("gen", true, [] (Callback<void(std::span<const char>)> write) { write(std::string_view("generated")); });
		caching->addGeneratedFile("gen", std::string("generated"));
		if (!watch.escaped.empty()) mc::fail("escaped", "files outside of the folder are read: " + watch.escaped[0]);
	}
	IHttpGetResponder& get(int kind) {
		if (kind == Dynamic) return *dynamic;
		return *caching;
	}
};
// One for each spelling of the root
static std::string spelled(int spelling) {
	std::string root = place().root;
	switch (spelling) {
	case 0: return root;
	case 1: return root + "/";
	case 2: return root + "/.";
	case 3: return root + "/../root";
	case 4: return std::filesystem::path(root).lexically_relative(std::filesystem::current_path()).string();
	case 5: return root + "//";
	case 6: return root + "/b/..";
	}
	return "";
}
constexpr int spellings = 7;
static Servers& servers(int spelling) {
	static std::map<int, std::unique_ptr<Servers>> made;
	auto& it = made[spelling];
	if (!it) it = std::make_unique<Servers>(spelled(spelling));
	return *it;
}

enum Demand { Yes, No, Either };
// What should be the contents under that path
static std::pair<Demand, std::string> model(int kind, const std::string& path) {
	if (path == "/gen") return {Yes, "generated"};
	if (path == "/") return {Yes, "inside index.html"};
	if (path.empty()) return {Either, "inside index.html"};
	if (path[0] != '/') return {No, ""};
	auto found = place().contents.find(path.substr(1));
	if (found != place().contents.end()) return {Yes, found->second};
	for (auto& it : hidden()) if (path.substr(1) == it) return {Either, "hidden " + it};
	return {No, ""};
}

static void request(int spelling, int kind, const std::string& path) {
	mc::describe(std::string(kindName(kind)) + " at " + (spelling == 4 ? "a relative path" : spelled(spelling).substr(place().scratch.path.size())) + " is asked for " + mc::quoted(path, 200));
	auto [demand, content] = model(kind, path);
	Silence silence;
	auto& server = servers(spelling).get(kind);
	if (mc::failed()) return;
	Watch watch(place().root);
	Answer answer;
	bool found = false;
	zoo::Exact exact(path);
	try {
		found = server.get(exact.view(), answer);
	} catch (std::exception& e) {
		mc::fail("exception", std::string("it throws ") + e.what());
		return;
	}
	mc::step(mc::mix(mc::hash(path), spelling * 4 + kind * 2 + found));
	MC_CHECK(watch.escaped.empty(), "escaped", "it opens " + mc::quoted(watch.escaped[0]));
	MC_CHECK(answer.body.find("SECRET") == std::string::npos, "escaped", "it sends a file from outside: " + mc::quoted(answer.body));
	if (found) {
		MC_CHECK(demand != No, "found", "something that is not a file of the folder is answered with " + mc::quoted(answer.body, 200));
		MC_CHECK(answer.written == 1, "answered", mc::fmt("it is answered %d times", answer.written));
		MC_CHECK(answer.body == content, "content", "the answer is " + mc::quoted(answer.body, 200) + " instead of " + mc::quoted(content));
		mc::count("found");
	} else {
		MC_CHECK(demand != Yes, "not-found", "a file of the folder is not found");
		MC_CHECK(answer.written == 0, "answered", "something not found is answered with " + mc::quoted(answer.body, 200));
		mc::count("not found");
	}
	mc::validated();
}
static void requestByHttp(int spelling, int kind, const std::string& path) {
	mc::describe(std::string(kindName(kind)) + " is asked through HTTP for " + mc::quoted(path, 200));
	auto [demand, content] = model(kind, path);
	Silence silence;
	auto& server = servers(spelling).get(kind);
	if (mc::failed()) return;
	HttpServer<> http(server);
	auto session = http.getSession();
	Watch watch(place().root);
	httpzoo::Fed<decltype(session)> fed;
	fed.feed(session, "GET " + path + " HTTP/1.1\r\nHost: x\r\n\r\n", {});
	if (mc::failed()) return;
	MC_CHECK(watch.escaped.empty(), "escaped", "it opens " + mc::quoted(watch.escaped[0]));
	MC_CHECK(fed.output.find("SECRET") == std::string::npos, "escaped", "it sends a file from outside");
	httpzoo::ResponseParser parsed(fed.output);
	MC_CHECK(parsed.problem.empty() && parsed.responses.size() == 1 && parsed.rest.empty(), "response", "there is not exactly one response: " + mc::quoted(fed.output, 300));
	if (mc::failed()) return;
	auto& got = parsed.responses[0];
	if (got.status == 200) {
		MC_CHECK(demand != No, "found", "something that is not a file of the folder is answered with " + mc::quoted(got.body, 200));
		MC_CHECK(got.body == content, "content", "the answer is " + mc::quoted(got.body, 200) + " instead of " + mc::quoted(content));
	} else {
		MC_CHECK(got.status == 404, "status", mc::fmt("the status is %d", got.status));
		MC_CHECK(demand != Yes, "not-found", "a file of the folder is not found");
	}
	mc::validated();
}

// Sequences of tokens
static const std::vector<std::string>& tokens() {
	static const std::vector<std::string> made = {"/", ".", "..", "a", "b", "index.html", "secret", "%2e", "%2f", "\\", std::string(1, '\0'), "root", place().root, "~", "gen", " "};
	return made;
}
constexpr int tokenCount = 16;
static std::string sequence(const std::vector<std::string>& from, int first, int depth) {
	std::string made = first < 0 ? "" : from[first];
	for (int i = 1; i < depth; i++) {
		int next = mc::choose(int(from.size()) + 1);
		if (next == int(from.size())) break;
		made += from[next];
	}
	return made;
}
static mc::Register tokenPaths{"paths of up to 5 parts (6 if thorough)", tokenCount * 2, [] (int unit) {
	request(0, unit % 2, sequence(tokens(), unit / 2, mc::thorough() ? 6 : 5));
}};
static mc::Register afterSlash{"paths of up to 4 parts after a slash, for all spellings of the folder", tokenCount * 2, [] (int unit) {
	int spelling = mc::choose(spellings);
	request(spelling, unit % 2, "/" + sequence(tokens(), unit / 2, mc::thorough() ? 5 : 4));
}};
static const std::vector<std::string>& letters() {
	static const std::vector<std::string> made = {"/", ".", "a", "b", std::string(1, '\0')};
	return made;
}
static mc::Register letterPaths{"paths of up to 8 letters (9 if thorough)", 5 * 5 * 2, [] (int unit) {
	request(0, unit % 2, letters()[unit / 10] + sequence(letters(), unit / 2 % 5, mc::thorough() ? 8 : 7));
}};
static mc::Register shortPaths{"paths of at most two bytes, whatever they are", 2 * 8, [] (int unit) {
	int first = mc::choose(33);
	if (first == 32) { request(0, unit % 2, ""); return; }
	std::string path(1, char(unit / 2 * 32 + first));
	int second = mc::choose(257);
	if (second < 256) path += char(second);
	request(0, unit % 2, path);
}};
// With each byte added to or inserted in the existing names
static mc::Register changed{"names with a byte inserted or replaced, each byte in each place", 2 * 16, [] (int unit) {
	std::string path = "/" + files()[unit / 2];
	int place = mc::choose(int(path.size()) + 1);
	bool replace = mc::choose(2);
	char letter = char(mc::choose(256));
	if (replace && size_t(place) < path.size()) path[place] = letter;
	else path.insert(path.begin() + place, letter);
	request(0, unit % 2, path);
}};
static mc::Register http{"paths of up to 4 parts through HTTP", tokenCount * 2, [] (int unit) {
	std::string path = sequence(tokens(), unit / 2, 4);
	if (path.find(' ') != std::string::npos || path.find('\0') != std::string::npos) return;
	requestByHttp(0, unit % 2, path);
}};
// Long names and deep folders
static mc::Register longPaths{"long paths", 2, [] (int unit) {
	static const std::vector<std::string> repeated = {"a", "/", "b/", "../", "./", "/b/..", "/.", "\\..", "%2e%2e/"};
	std::string made = "/";
	auto& part = mc::pick(repeated);
	static const std::vector<int> counts = {100, 127, 128, 255, 256, 1000, 2047, 2048, 4094, 4095, 4096, 5000, 70000};
	int count = mc::pick(counts);
	for (int i = 0; i < count; i++) made += part;
	static const std::vector<std::string> ends = {"", "a", "b/a", "etc/passwd", "index.html"};
	request(0, unit, made + mc::pick(ends));
}};
