// C18: methods of many signatures called locally and over every protocol
#include "httpzoo.hpp"
#include "bomba_json_rpc.hpp"
#include "bomba_binary_protocol.hpp"
#include "remotezoo.hpp"
using namespace httpzoo;
#ifndef PART
#define PART 0
#endif
constexpr int parts = 8;

// Connects a client to a session of a server, keeping what was sent
template <typename Session>
struct Wire : ITcpClient {
	Session session;
	bool http;
	std::string request, responses;
	int sent = 0;
	Wire(Session session, bool http) : session(session), http(http) {}
	void writeRequest(std::span<char> written) override {
		request.assign(written.data(), written.size());
		sent++;
		send(request);
	}
	void send(std::string_view text) {
		Exact exact(text);
		auto [reaction, size] = session.respond(exact.span(), [&] (std::span<const char> out) { responses.append(out.data(), out.size()); });
		MC_CHECK(reaction == ServerReaction::OK && size == int64_t(text.size()), "server", "the server did not accept the request " + mc::quoted(text, 300));
	}
	void getResponse(RequestToken token, Callback<std::tuple<ServerReaction, RequestToken, int64_t>(std::span<char> input, bool identified)> reader) override {
		while (true) {
			if (responses.empty()) throw std::runtime_error("no response");
			auto [reaction, got, size] = reader(std::span<char>(responses), false);
			if (reaction != ServerReaction::OK) throw std::runtime_error("unreadable response: " + mc::quoted(responses, 300));
			if (!(got == token)) { // Of another call
				auto [again, token2, size2] = reader(std::span<char>(responses.data(), size), true);
				responses.erase(0, size);
				continue;
			}
			reader(std::span<char>(responses.data(), size), true);
			responses.erase(0, size);
			return;
		}
	}
};

static int placed; // How many objects above the one that is called
static const void* servedObject; // Which one should run the methods
template <typename T> std::string parentText(const T* parent) { return parent == servedObject ? "parent" : "wrong parent"; }

// An object at the given depth in a tree
struct Planted {
	std::shared_ptr<void> owner;
	void* object;
	IRemoteCallable* callable;
	DynamicRpcObject middle, top;
	template <typename Object> explicit Planted(Object* made) : owner(std::shared_ptr<Object>(made)), object(made), callable(made) {}
	IRemoteCallable& at(int depth) {
		if (depth == 0) return *callable;
		auto& holder = depth == 1 ? top : middle;
		holder.add("first", [] (int32_t a = name("a")) { called("decoy"); return a; });
		holder.add("object", RpcLambdaHolder::nonOwning(*callable));
		holder.add("second", [] () { called("decoy"); });
		if (depth == 2) {
			top.add("obj", [] () { called("decoy"); });
			top.add("inner", RpcLambdaHolder::nonOwning(middle));
		}
		return top;
	}
	static std::string path(int depth, char separator) {
		return depth == 0 ? "" : depth == 1 ? std::string("object") + separator : std::string("inner") + separator + "object" + separator;
	}
};
constexpr int depths = 3;

struct Web { // A served object with everything that can call it
	int depth;
	Planted served;
	IRemoteCallable& root;
	DummyGetResponder none;
	RpcGetResponder<> get;
	HtmlPostResponder<> post;
	HttpServer<> httpServer;
	JsonRpcServer<> jsonServer;
	using HttpWire = Wire<HttpServer<>::Session>;
	HttpWire httpWire;
	Wire<JsonRpcServer<>::Session> jsonWire;
	Planted viaJson, viaHttp;
	IRemoteCallable &jsonRoot, &httpRoot;
	JsonRpcClient<> jsonClient;
	HttpClient<> httpClient;
	template <typename Size> struct Binary {
		BinaryProtocolServer<Size> server;
		Wire<typename BinaryProtocolServer<Size>::Session> wire;
		Planted via;
		BinaryProtocolClient<Size> client;
		template <typename M> Binary(IRemoteCallable& root, int depth, M&& make) : server(root), wire(server.getSession(), false), via(make()), client(via.at(depth), wire) {}
	};
	Binary<uint8_t> binary1;
	Binary<uint16_t> binary2;
	Binary<uint32_t> binary4;
	template <typename M> Web(int depth, M&& make) : depth(depth), served(make()), root(served.at(depth)), get(none, root), post(root), httpServer(get, post), jsonServer(root),
			httpWire(httpServer.getSession(), true), jsonWire(jsonServer.getSession(), true), viaJson(make()), viaHttp(make()),
			jsonRoot(viaJson.at(depth)), httpRoot(viaHttp.at(depth)), jsonClient(jsonRoot, jsonWire, "host"), httpClient(httpWire, "host"),
			binary1(root, depth, make), binary2(root, depth, make), binary4(root, depth, make) {
		httpRoot.setResponder(httpClient);
	}
};
template <typename Object>
Web& web(int depth) {
	static Web* made[depths] = {};
	if (!made[depth]) made[depth] = new Web(depth, [] { return new Object; });
	servedObject = made[depth]->served.object;
	return *made[depth];
}

// What a call should do
struct Due {
	std::string name, log, before; // What it logs with the parent it should have
	std::vector<std::string> argNames;
	std::vector<Node> args;
	bool isVoid = false;
	Node result;
	std::string text() const {
		std::string r = name + "(";
		for (size_t i = 0; i < args.size(); i++) r += (i ? "," : "") + argNames[i] + "=" + show(args[i]);
		return r + ")";
	}
	bool finite = true; // Can be written as JSON
	bool small(int width) const { // Fits with the narrowest sizes
		size_t sum = 0;
		for (auto& it : args) sum += mostBytes(it);
		return sum < (width == 1 ? 240 : 65000) && mostBytes(result) < (width == 1 ? 240 : 65000);
	}
	static size_t mostBytes(const Node& n) {
		size_t sum = n.kind == Node::Str ? n.s.size() + 5 : 9;
		for (auto& it : n.a) sum += mostBytes(it);
		for (auto& it : n.o) sum += it.first.size() + 6 + mostBytes(it.second);
		return sum;
	}
	static bool entity(const Node& n) { // Text that looks like an escape of a character and is read as one
		return n.kind == Node::Str && n.s.find("&#") != std::string::npos && isdigit((unsigned char)n.s[n.s.find("&#") + 2]);
	}
	bool url() const {
		for (auto& it : args) if (it.kind == Node::Null || it.kind == Node::Arr || it.kind == Node::Obj) return false;
		for (auto& it : args) if (entity(it)) return false;
		if (entity(result)) return false;
		return isVoid || (result.kind != Node::Null && result.kind != Node::Arr && result.kind != Node::Obj);
	}
};
static bool finite(const Node& n) {
	if (n.kind == Node::Float && !std::isfinite(n.d)) return false;
	for (auto& it : n.a) if (!finite(it)) return false;
	for (auto& it : n.o) if (!finite(it.second)) return false;
	return true;
}
static void verify(const Due& due, const char* how, bool gotValue, const Node& got) {
	MC_CHECK(calls.size() == 1, std::string("runs-") + how, mc::fmt("%zu runs of ", calls.size()) + due.text() + " called by " + how);
	if (mc::failed()) return;
	MC_CHECK(calls[0] == due.log, std::string("arguments-") + how, "it ran " + mc::quoted(calls[0], 400) + " instead of " + mc::quoted(due.log, 400) + " called by " + how);
	if (!due.isVoid && gotValue) MC_CHECK(sameNode(got, due.result), std::string("result-") + how, "the result is " + show(got) + " instead of " + show(due.result) + " from " + due.text() + " called by " + how);
	mc::validated();
}
// Decodes a value written as URL encoded text
static std::string decoded(std::string_view in) {
	std::string r, once;
	for (size_t i = 0; i < in.size(); i++) {
		if (in[i] == '+') { r += ' '; continue; }
		if (in[i] != '%') { r += in[i]; continue; }
		auto escape = [&] (size_t at) { return at + 3 <= in.size() && in[at] == '%' ? int(strtol(std::string(in.substr(at + 1, 2)).c_str(), nullptr, 16)) : -1; };
		if (escape(i) == '&' && escape(i + 3) == '#') {
			size_t end = i + 6;
			while (end < in.size() && isdigit((unsigned char)in[end])) end++;
			if (end > i + 6 && escape(end) == ';') {
				StrictJson::utf8(r, uint32_t(atoi(std::string(in.substr(i + 6, end - i - 6)).c_str())));
				i = end + 2;
				continue;
			}
		}
		StrictJson::utf8(r, uint32_t(escape(i)));
		i += 2;
	}
	return r;
}
static bool urlValueIs(const std::string& body, const Node& n) {
	std::string text = decoded(body);
	switch (n.kind) {
	case Node::Bool: return text == (n.b ? "true" : "false");
	case Node::Int: return text == intText(n.i);
	case Node::Float: { double d = strtod(text.c_str(), nullptr); return d == n.d || float(d) == float(n.d); }
	case Node::Str: return text == n.s;
	default: return false;
	}
}

using Call = std::function<Node(void*)>;
static bool attempt(const Due& due, const char* how, Node& got, const Call& call, void* on) {
	calls.clear();
	mc::step(mc::mix(mc::hash(how), mc::hash(due.log)));
	try {
		got = call(on);
		return true;
	} catch (std::exception& e) {
		mc::fail(std::string("throws-") + how, std::string("calling ") + due.text() + " by " + how + " throws " + e.what());
	}
	return false;
}
template <typename R, typename F> Node noded(F&& f) {
	if constexpr(std::is_void_v<R>) { f(); return Node::null(); }
	else return Kit<R>::node(f());
}

// A request with named arguments, some of them absent
static void rawJson(Web& w, const Due& due, const std::vector<int>& order, const char* extra = nullptr) {
	std::string params = "{";
	for (int i : order) params += (params.size() > 1 ? "," : "") + jsonText(Node::string(due.argNames[i])) + ":" + jsonText(due.args[i]);
	if (extra) params += std::string(params.size() > 1 ? "," : "") + extra;
	params += "}";
	std::string body = "{\"jsonrpc\":\"2.0\",\"id\":77,\"method\":\"" + w.served.path(w.depth, '.') + due.name + "\"" + (params.size() > 2 || order.size() ? ",\"params\":" + params : "") + "}";
	calls.clear();
	w.jsonWire.responses.clear();
	w.jsonWire.send(mc::fmt("POST / HTTP/1.1\r\nContent-Type: application/json\r\nContent-Length: %zu\r\n\r\n", body.size()) + body);
	ResponseParser parser(w.jsonWire.responses);
	w.jsonWire.responses.clear();
	MC_CHECK(parser.problem.empty() && parser.responses.size() == 1 && parser.responses[0].status == 200, "raw-response", "wrong response to " + mc::quoted(body, 300));
	if (mc::failed()) return;
	StrictJson json(parser.responses[0].body);
	Node document;
	MC_CHECK(json.document(document) && document.find("result"), "raw-response", "the response to " + mc::quoted(body, 400) + " is " + mc::quoted(parser.responses[0].body, 300));
	if (!mc::failed()) verify(due, "JSON-RPC request", true, *document.find("result"));
}
static void rawUrl(Web& w, const Due& due, const std::vector<int>& order, bool form) {
	std::string fields;
	for (int i : order) fields += (fields.size() ? "&" : "") + due.argNames[i] + "=" + remotezoo::urlText(due.args[i]);
	std::string path = "/" + w.served.path(w.depth, '/') + due.name;
	calls.clear();
	w.httpWire.responses.clear();
	if (form) w.httpWire.send("POST " + path + mc::fmt(" HTTP/1.1\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: %zu\r\n\r\n", fields.size()) + fields);
	else w.httpWire.send("GET " + path + "?" + fields + " HTTP/1.1\r\n\r\n");
	ResponseParser parser(w.httpWire.responses);
	std::string text = w.httpWire.responses;
	w.httpWire.responses.clear();
	MC_CHECK(parser.problem.empty() && parser.responses.size() == 1 && (parser.responses[0].status == 200 || parser.responses[0].status == 204), "http-response", "wrong response to " + mc::quoted(path + "?" + fields, 300) + " " + mc::quoted(text, 200));
	if (mc::failed()) return;
	verify(due, form ? "form" : "query", false, {});
	bool plain = due.result.kind != Node::Null && due.result.kind != Node::Arr && due.result.kind != Node::Obj;
	if (!form && !due.isVoid && plain)
		MC_CHECK(urlValueIs(parser.responses[0].body, due.result), "result-query", "the result is " + mc::quoted(parser.responses[0].body, 300) + " instead of " + show(due.result) + " from " + due.text());
}

// One call over everything
static void everything(Web& w, const Due& due, const Call& now, const Call& later) {
	mc::describe(mc::fmt("depth %d ", w.depth) + due.text());
	Node got;
	auto both = [&] (const char* how, const char* laterHow, void* on, auto& wire, bool value) {
		if (mc::failed()) return;
		wire.sent = 0;
		if (attempt(due, how, got, now, on)) verify(due, how, value, got);
		MC_CHECK(wire.sent == 1, std::string("requests-") + how, mc::fmt("%d requests were sent", wire.sent));
		if (mc::failed()) return;
		if (attempt(due, laterHow, got, later, on)) verify(due, laterHow, value, got);
		MC_CHECK(wire.responses.empty(), std::string("rest-") + how, "something is left unread after the response");
	};
	if (attempt(due, "local call", got, now, w.served.object)) verify(due, "local call", true, got);
	if (attempt(due, "local future", got, later, w.served.object)) verify(due, "local future", true, got);
	if (due.finite) both("JSON-RPC", "JSON-RPC future", w.viaJson.object, w.jsonWire, true);
	if (due.small(1)) both("binary 1", "binary 1 future", w.binary1.via.object, w.binary1.wire, true);
	if (due.small(2)) both("binary 2", "binary 2 future", w.binary2.via.object, w.binary2.wire, true);
	both("binary 4", "binary 4 future", w.binary4.via.object, w.binary4.wire, true);
	std::vector<int> inOrder;
	for (int i = 0; i < int(due.args.size()); i++) inOrder.push_back(i);
	if (due.finite) rawJson(w, due, inOrder);
	if (due.finite && due.url()) {
		rawUrl(w, due, inOrder, false);
		rawUrl(w, due, inOrder, true);
		if (due.isVoid) both("plain HTTP", "plain HTTP future", w.viaHttp.object, w.httpWire, false);
	}
	MC_CHECK(w.jsonWire.responses.empty() && w.httpWire.responses.empty(), "rest", "something is left unread");
}
template <typename M> struct ReturnedBy;
template <auto F, SerialisationFlags::Flags Flags> struct ReturnedBy<RpcMember<F, Flags>> {
	template <typename L, typename R, typename... A> static R of(R (L::*)(A...) const);
	using type = decltype(of(&decltype(F)::operator()));
};
template <typename Object, typename Member, typename... A>
std::pair<Call, Call> callsOf(Member Object::*member, const A&... args) {
	using R = typename ReturnedBy<Member>::type;
	return {[=] (void* on) { return noded<R>([&] { return (static_cast<Object*>(on)->*member)(args...); }); },
			[=] (void* on) { auto future = (static_cast<Object*>(on)->*member).async(args...); return noded<R>([&] { return future.get(); }); }};
}
template <typename Object, typename Member, typename... A>
void everywhere(int depth, const Due& due, Member Object::*member, const A&... args) {
	auto& w = web<Object>(depth);
	auto made = callsOf(member, args...);
	everything(w, due, made.first, made.second);
}

// Methods of every type
template <typename T> T& given() { static T* made = new T(); return *made; }
template <typename T>
struct Echo : RpcObject<Echo<T>> {
	using S = RpcObject<Echo<T>>;
	RpcMember<[] (T value = name("value")) { called("echo", value); return value; }> echo = S::template child<"echo">;
	RpcMember<[] (T value = name("value")) { called("take", value); }> take = S::template child<"take">;
	RpcMember<[] () { called("give"); return given<T>(); }> give = S::template child<"give">;
	RpcMember<[] (int32_t before = name("before"), T value = name("value"), std::string after = name("after")) { called("middle", before, value, after); return value; }> middle = S::template child<"middle">;
	RpcMember<[] (T a = name("a"), T b = name("b")) { called("both", a, b); Two<T, T> r; r.a = b; r.b = a; return r; }> both = S::template child<"both">;
	RpcMember<[] (Echo<T>* parent, const T& value = name("value"), bool last = name("last")) { called(parentText(parent), value, last); return last; }> owned = S::template child<"owned">;
};
template <typename T> Node nodeOf(const T& t) { return Kit<T>::node(t); }
template <typename T>
void echo(int depth, int which, int level) {
	using E = Echo<T>;
	Due due;
	auto set = [&] (const char* name, std::vector<std::string> names, std::string log, const auto&... args) {
		due.name = name;
		due.argNames = names;
		due.args = {nodeOf(args)...};
		due.log = log;
	};
	auto finish = [&] {
		for (auto& it : due.args) if (!finite(it)) due.finite = false;
		if (!finite(due.result)) due.finite = false;
	};
	T value = Kit<T>::gen(which < 2 ? level : level + 1);
	web<E>(depth);
	switch (which) {
	case 0: set("echo", {"value"}, callText("echo", value), value); due.result = nodeOf(value); finish(); everywhere(depth, due, &E::echo, value); break;
	case 1: set("take", {"value"}, callText("take", value), value); due.isVoid = true; finish(); everywhere(depth, due, &E::take, value); break;
	case 2: given<T>() = value; set("give", {}, callText("give")); due.result = nodeOf(value); finish(); everywhere(depth, due, &E::give); break;
	case 3: {
		int32_t before = Kit<int32_t>::gen(2);
		std::string after = Kit<std::string>::gen(2);
		set("middle", {"before", "value", "after"}, callText("middle", before, value, after), before, value, after);
		due.result = nodeOf(value);
		finish();
		everywhere(depth, due, &E::middle, before, value, after);
		break;
	}
	case 4: {
		T other = Kit<T>::gen(level + 1);
		set("both", {"a", "b"}, callText("both", value, other), value, other);
		Two<T, T> result;
		result.a = other;
		result.b = value;
		due.result = nodeOf(result);
		finish();
		everywhere(depth, due, &E::both, value, other);
		break;
	}
	case 5: {
		bool last = mc::choose(2);
		set("owned", {"value", "last"}, callText("parent", value, last), value, last);
		due.result = nodeOf(last);
		finish();
		// A local call of the other objects isn't made, so the parent is always the served one
		everywhere(depth, due, &E::owned, value, last);
		break;
	}
	}
}
template <typename... Ts> constexpr int count(zoo::List<Ts...>) { return sizeof...(Ts); }
// Types that can be copied
using Copied1 = zoo::List<std::array<bool, 2>, std::map<std::string, bool>, Optional<bool>, One<bool>, std::shared_ptr<int32_t>, std::vector<int8_t>, std::array<uint64_t, 2>, std::map<std::string, int32_t>, Optional<int32_t>, One<uint64_t>,
		std::vector<double>, Optional<double>, std::map<std::string, float>, One<float>, std::vector<std::string>, std::array<std::string, 2>, std::map<std::string, std::string>, Optional<std::string>, std::shared_ptr<std::string>, One<std::string>, std::vector<uint16_t>>;
using Copied2 = zoo::List<std::vector<std::vector<std::string>>, std::map<std::string, std::vector<int16_t>>, std::vector<std::map<std::string, std::string>>, Optional<std::vector<std::string>>, Optional<One<std::string>>, std::vector<Optional<int16_t>>,
		One<One<One<int32_t>>>, std::vector<Two<std::string, int32_t>>, Two<std::string, std::string>, Two<double, uint64_t>, Two<int64_t, Optional<std::string>>, Two<bool, std::vector<std::string>>, Three<Optional<int32_t>, std::vector<int8_t>, std::string>,
		Three<std::map<std::string, int32_t>, bool, One<bool>>, std::map<std::string, Two<bool, float>>, std::array<std::vector<int16_t>, 2>, One<std::vector<One<std::vector<One<int8_t>>>>>>;
using All = Concat<Leaves, Concat<Copied1, Copied2>>;
static_assert(count(All()) == 50);
constexpr int methodsOfEcho = 6;
static mc::Register everyType("every type in every place", count(All()) * methodsOfEcho, [] (int u) {
	onlyValidUtf8 = true;
	int type = u / methodsOfEcho, which = u % methodsOfEcho;
	auto tried = [&]<typename T>() {
		bool leaf = type < count(Leaves());
		int level = mc::thorough() ? (leaf ? 0 : 1) : leaf ? 0 : 2;
		int depth = which == 0 || which == 5 || mc::thorough() ? mc::choose(depths) : (type + which) % depths;
		echo<T>(depth, which, level);
	};
	[&]<typename... Ts, size_t... I>(zoo::List<Ts...>, std::index_sequence<I...>) {
		auto one = [&]<typename T, size_t index>() {
			if constexpr(index % parts == PART) if (index == type) tried.template operator()<T>();
		};
		(one.template operator()<Ts, I>(), ...);
	}(All(), std::make_index_sequence<count(All())>());
});

// Methods of many arguments
struct Many : RpcObject<Many> {
	RpcMember<[] (bool a = name("a")) { called("m1", a); return a; }> m1 = child<"m1">;
	RpcMember<[] (std::string a = name("a"), int8_t aa = name("aa")) { called("m2", a, aa); return a + std::to_string(aa); }> m2 = child<"m2">;
	RpcMember<[] (int64_t id = name("id"), bool method = name("method"), Optional<std::string> params = name("params")) { called("m3", id, method, params); return id; }> m3 = child<"m3">;
	RpcMember<[] (double ab = name("ab"), float a = name("a"), uint8_t abc = name("abc"), std::string b = name("b")) { called("m4", ab, a, abc, b); return b; }> m4 = child<"m4">;
	RpcMember<[] (std::vector<int32_t> list = name("list"), std::map<std::string, bool> set = name("set"), Two<int32_t, std::string> pair = name("pair"), uint64_t big = name("big"), std::string text = name("text")) {
		called("m5", list, set, pair, big, text);
		Three<std::vector<int32_t>, uint64_t, std::string> r;
		r.first = list; r.second = big; r.first2 = text + pair.b;
		return r;
	}> m5 = child<"m5">;
	RpcMember<[] (Many* parent, std::string t1 = name("t1"), std::string t2 = name("t2"), std::string t11 = name("t11"), int16_t n1 = name("n1"), uint16_t n2 = name("n2"), bool last = name("last")) {
		called(parentText(parent), t1, t2, t11, n1, n2, last);
		return t1 + "|" + t2 + "|" + t11;
	}> m6 = child<"m6">;
	RpcMember<[] (bool b1 = name("b1"), bool b2 = name("b2"), bool b3 = name("b3"), bool b4 = name("b4"), bool b5 = name("b5"), bool b6 = name("b6"), bool b7 = name("b7")) {
		called("m7", b1, b2, b3, b4, b5, b6, b7);
		return std::array<bool, 7>{b7, b6, b5, b4, b3, b2, b1};
	}> m7 = child<"m7">;
	RpcMember<[] (Many* parent) { called(parentText(parent)); }> m0 = child<"m0">;
	RpcMember<[] (Many* parent, int32_t only = name("only")) { called(parentText(parent), only); return uint8_t(only); }> m8 = child<"m8">;
	RpcMember<[] (int32_t plain = name("plain"), uint8_t small = name("small") | SerialisationFlags::UINT_8, bool flag = name("flag")) { called("m9", plain, small, flag); return small; }> m9 = child<"m9">;
};
static Due due(const char* name, std::vector<std::string> names, const char* logName, auto&& result, const auto&... args) {
	Due d;
	d.name = name;
	d.argNames = std::move(names);
	d.args = {nodeOf(args)...};
	d.log = callText(logName, args...);
	if constexpr(std::is_same_v<std::decay_t<decltype(result)>, std::nullptr_t>) d.isVoid = true;
	else d.result = nodeOf(std::decay_t<decltype(result)>(result));
	for (auto& it : d.args) if (!finite(it)) d.finite = false;
	if (!finite(d.result)) d.finite = false;
	return d;
}
// With the values given, or default ones if absent
static void withMany(int which, const std::vector<bool>& present, std::function<void(const Due&, const Call&, const Call&)> then) {
	auto f = [&] (const Due& due, auto member, const auto&... args) {
		auto made = callsOf(member, args...);
		then(due, made.first, made.second);
	};
	auto has = [&] (int i) { return i >= int(present.size()) || present[i]; };
	int index = 0;
	auto value = [&]<typename T>(const T& given) { return has(index++) ? given : T(); };
	using M = Many;
	int v = mc::choose(3); // Set of values
	auto pickOne = [&]<typename T>(std::initializer_list<T> from) { return value(T(from.begin()[v])); };
	using S = std::string;
	switch (which) {
	case 1: { bool a = pickOne({true, false, true}); f(due("m1", {"a"}, "m1", a, a), &M::m1, a); break; }
	case 2: { S a = pickOne({S("a"), S(""), S("aa=5&a")}); int8_t aa = pickOne({int8_t(-128), int8_t(1), int8_t(127)}); f(due("m2", {"a", "aa"}, "m2", a + std::to_string(aa), a, aa), &M::m2, a, aa); break; }
	case 3: { int64_t id = pickOne({int64_t(INT64_MIN), int64_t(77), int64_t(INT64_MAX)}); bool method = pickOne({true, true, false}); Optional<S> givenParams; if (v != 2) givenParams = S(v ? "null" : "{}"); Optional<S> params = value(givenParams); f(due("m3", {"id", "method", "params"}, "m3", id, id, method, params), &M::m3, id, method, params); break; }
	case 4: { double ab = pickOne({1e300, -0.1, 3.0}); float a = pickOne({0.25f, 1e-30f, -7.f}); uint8_t abc = pickOne({uint8_t(255), uint8_t(1), uint8_t(128)}); S b = pickOne({S("ab"), S("é\"\\"), S("a&b=c")}); f(due("m4", {"ab", "a", "abc", "b"}, "m4", b, ab, a, abc, b), &M::m4, ab, a, abc, b); break; }
	case 5: {
		using L = std::vector<int32_t>; using B = std::map<S, bool>; using P = Two<int32_t, S>;
		L list = pickOne({L{1, -2}, L{}, L{INT32_MAX}});
		B set = pickOne({B{{"a", true}, {"", false}}, B{{"list", true}}, B{}});
		P given; given.a = -5; given.b = v ? "pair" : "{\"";
		P pair = value(given);
		uint64_t big = pickOne({uint64_t(UINT64_MAX), uint64_t(1) << 63, uint64_t(3)});
		S text = pickOne({S("text"), S("\n"), S("x]}")});
		Three<L, uint64_t, S> result;
		result.first = list; result.second = big; result.first2 = text + pair.b;
		f(due("m5", {"list", "set", "pair", "big", "text"}, "m5", result, list, set, pair, big, text), &M::m5, list, set, pair, big, text);
		break;
	}
	case 6: {
		S t1 = pickOne({S("one"), S(""), S("t11")}), t2 = pickOne({S("two"), S("+ %41"), S("&#6")}), t11 = pickOne({S("three"), S("ž"), S("😀")});
		int16_t n1 = pickOne({int16_t(-32768), int16_t(5), int16_t(-1)}); uint16_t n2 = pickOne({uint16_t(65535), uint16_t(32768), uint16_t(1)}); bool last = pickOne({true, false, true});
		f(due("m6", {"t1", "t2", "t11", "n1", "n2", "last"}, "parent", t1 + "|" + t2 + "|" + t11, t1, t2, t11, n1, n2, last), &M::m6, t1, t2, t11, n1, n2, last);
		break;
	}
	case 7: {
		auto next = [&, bits = v == 0 ? 127 : v == 1 ? 0b1010011 : 0b0001000] () mutable { bool r = bits & 1; bits >>= 1; return value(r); };
		bool b1 = next(), b2 = next(), b3 = next(), b4 = next(), b5 = next(), b6 = next(), b7 = next();
		f(due("m7", {"b1", "b2", "b3", "b4", "b5", "b6", "b7"}, "m7", std::array<bool, 7>{b7, b6, b5, b4, b3, b2, b1}, b1, b2, b3, b4, b5, b6, b7), &M::m7, b1, b2, b3, b4, b5, b6, b7);
		break;
	}
	case 8: { int32_t only = pickOne({5, -1, 1000}); f(due("m8", {"only"}, "parent", uint8_t(only), only), &M::m8, only); break; }
	case 9: { int32_t plain = pickOne({5, -1, 1000}); uint8_t small = pickOne({uint8_t(1), uint8_t(255), uint8_t(128)}); bool flag = pickOne({true, false, true}); f(due("m9", {"plain", "small", "flag"}, "m9", small, plain, small, flag), &M::m9, plain, small, flag); break; }
	default: f(due("m0", {}, "parent", nullptr), &M::m0); break;
	}
}
#if PART == 0
static mc::Register arities("methods of any number of arguments", 10 * depths, [] (int u) {
	auto& w = web<Many>(u / 10);
	withMany(u % 10, {}, [&] (const Due& due, const Call& now, const Call& later) { everything(w, due, now, later); });
});
// All orders and all subsets of named arguments
static mc::Register named("order and absence of named arguments", 10 * 128, [] (int u) {
	int which = u % 10, mask = u / 10;
	static const int arity[] = {0, 1, 2, 3, 4, 5, 6, 7, 1, 3};
	if (mask >= 1 << arity[which]) return;
	std::vector<bool> present;
	std::vector<int> order;
	for (int i = 0; i < arity[which]; i++) {
		present.push_back(mask & (1 << i));
		if (present.back()) order.push_back(i);
	}
	int depth = mc::choose(depths);
	auto& w = web<Many>(depth);
	withMany(which, present, [&] (const Due& due, const Call&, const Call&) {
		int limit = mc::thorough() ? 7 : 5;
		int count = 1;
		for (int i = 2; i <= std::min<int>(limit, int(order.size())); i++) count *= i;
		for (int i = 0, n = mc::choose(count); i < n; i++) std::next_permutation(order.begin(), order.end()); // The beginning is ordered if there are too many
		int form = mc::choose(5);
		std::string text = mc::fmt("depth %d ", depth) + due.text() + " given";
		for (int i : order) text += " " + due.argNames[i];
		mc::describe(text + mc::fmt(" form %d", form));
		mc::step(text);
		switch (form) {
		case 0: rawJson(w, due, order); break;
		case 1: rawJson(w, due, order, "\"unknown\":{\"a\":[1,2,{\"b\":\"]\"}]}"); break;
		case 2: rawJson(w, due, order, "\"\":null"); break;
		default:
			for (int i : order) if (due.args[i].kind == Node::Arr || due.args[i].kind == Node::Obj || due.args[i].kind == Node::Null) return;
			if (!due.isVoid && (due.result.kind == Node::Arr || due.result.kind == Node::Obj || due.result.kind == Node::Null)) return;
			rawUrl(w, due, order, form == 4);
		}
	});
});
// Several objects served by one server and called in turns
static mc::Register turns("calls of different methods in turns", 10 * 10, [] (int u) {
	auto& w = web<Many>(mc::choose(depths));
	for (int i = 0; i < 3 && !mc::failed(); i++) {
		int which = i == 0 ? u % 10 : i == 1 ? u / 10 : mc::choose(10);
		withMany(which, {}, [&] (const Due& due, const Call& now, const Call& later) { everything(w, due, now, later); });
	}
});
#endif
#if PART == 0
// Arguments and results of sizes around every power of ten and two that sizes of messages can be written with
struct Lengthy : RpcObject<Lengthy> {
	static inline std::string got;
	static inline int runs = 0;
	RpcMember<[] (std::string text = name("text"), int32_t keep = name("keep")) {
		got = text;
		runs++;
		return text.substr(0, size_t(keep));
	}> cut = child<"cut">;
};
static mc::Register lengthy("long arguments and results", 5 * 16, [] (int u) {
	static const size_t around[] = {10, 100, 128, 256, 1000, 1024, 4096, 10000, 32768, 65536, 100000, 131072, 1000000, 1048576, 10000000, 16777216};
	size_t base = around[u / 5];
	int kind = u % 5;
	bool big = base >= 1000000;
	if (kind == 3 && base > 256) return;
	if (kind == 4 && base > 65536) return;
	int shift = big ? mc::choose(2) : mc::choose(base >= 10000 ? 40 : 160); // The rest of the message has its size too
	size_t size = big ? base - shift * 70 : base >= size_t(shift) ? base - shift : 0;
	if (kind == 3 && size > 200) return;
	if (kind == 4 && size > 65000) return;
	int keeping = kind == 1 ? 0 : mc::choose(3); // Forms have no results
	size_t keep = keeping == 0 ? 0 : keeping == 1 ? size : std::min<size_t>(size, 7);
	static const char* const names[] = {"JSON-RPC", "HTTP", "binary with 32 bit sizes", "binary with 8 bit sizes", "binary with 16 bit sizes"};
	mc::describe(mc::fmt("%s: %zu bytes, %zu returned", names[kind], size, keep));
	std::string text(size, 'x');
	for (size_t i = 0; i < size; i += 13) text[i] = char('a' + i / 13 % 23);
	Lengthy served, local;
	Lengthy::got.clear();
	Lengthy::runs = 0;
	auto check = [&] {
		try {
			for (int again = 0; again < 2 && !mc::failed(); again++) {
				Lengthy::runs = 0;
				std::string result = again ? local.cut("b", 1) : local.cut(text, int32_t(keep));
				std::string_view wanted = again ? std::string_view("b") : std::string_view(text);
				MC_CHECK(Lengthy::runs == 1, "long:runs", mc::fmt("the method ran %d times", Lengthy::runs));
				MC_CHECK(Lengthy::got == wanted, "long:argument", mc::fmt("the method got %zu bytes ", Lengthy::got.size()) + mc::quoted(Lengthy::got, 60));
				MC_CHECK(kind == 1 || result == wanted.substr(0, again ? 1 : keep), "long:result", mc::fmt("the result has %zu bytes ", result.size()) + mc::quoted(result, 60));
			}
		} catch (std::exception& e) {
			mc::fail("long:exception", mc::fmt("the call has thrown %s", mc::quoted(e.what(), 300).c_str()));
		}
	};
	auto binary = [&] <typename Size> (Size) {
		BinaryProtocolServer<Size> server(served);
		Wire<typename BinaryProtocolServer<Size>::Session> wire(server.getSession(), false);
		BinaryProtocolClient<Size> client(local, wire);
		check();
	};
	DummyGetResponder none;
	if (kind == 0) {
		JsonRpcServer<> server(served);
		Wire<JsonRpcServer<>::Session> wire(server.getSession(), true);
		JsonRpcClient<> client(local, wire, "host");
		check();
	} else if (kind == 1) {
		RpcGetResponder<> get(none, served);
		HtmlPostResponder<> post(served);
		HttpServer<> server(get, post);
		Wire<HttpServer<>::Session> wire(server.getSession(), true);
		HttpClient<> client(wire, "host");
		local.setResponder(client);
		check();
	} else if (kind == 2) binary(uint32_t(0));
	else if (kind == 3) binary(uint8_t(0));
	else binary(uint16_t(0));
	mc::step(mc::fmt("%d %zu %zu", kind, size, keep));
	mc::validated();
});
#endif
