// C25: the JavaScript client
#include "jsvalues.hpp"
using namespace jszoo;
#ifndef PART
#define PART 0
#endif

// Makes a call, expects the result if the server must accept it
static void verifyCall(Service& service, std::string method, const std::vector<Argument>& arguments, std::optional<Node> result, std::string url = "", std::string mode = "browser") {
	bool right = true;
	std::string unfit;
	for (auto& it : arguments)
		if (it.value.kind != Value::Null && it.value.kind != Value::Undefined && fit(it.type, it.value) == Wrong) { right = false; unfit = it.name; }
	auto command = callCommand(method, arguments);
	mc::describeMore(" " + mc::quoted(command, 600));
	mc::step(command);
	auto events = driver()(command);
	if (mc::failed()) return;
	if (!right) {
		MC_CHECK(events.size() == 1 && (Driver::name(events[0]) == "error" || Driver::name(events[0]) == "threw"), "wrong-argument", "calling with a wrong " + unfit + " causes " + showEvents(events));
		mc::count("calls with wrong arguments");
		mc::validated();
		return;
	}
	Sent sent;
	bool asked = isSent(events, sent) && sent.where == mode;
	MC_CHECK(asked, "not-sent", "a correct call causes " + showEvents(events));
	std::string id;
	if (!asked || !rightRequest(sent, method, arguments, url, id)) return;
	std::string response;
	int status = 0;
	if (!exchange(service.server, sent.body, status, response)) { mc::fail("server", "the server does not respond to " + mc::quoted(sent.body)); return; }
	events = driver()(mc::fmt("[\"answer\",%d,%d,", sent.index, status) + jsonText(response) + "]");
	StrictJson json(response);
	Node n;
	bool accepted = json.document(n) && n.kind == Node::Obj && !n.find("error");
	if (result) MC_CHECK(accepted, "not-accepted", "the server answered " + mc::quoted(response) + " to " + mc::quoted(sent.body));
	if (!accepted) {
		MC_CHECK(events.size() == 1 && Driver::name(events[0]) == "error", "error-lost", "the answer " + mc::quoted(response) + " causes " + showEvents(events));
		mc::count("calls refused by the server");
		mc::validated();
		return;
	}
	bool delivered = events.size() == 1 && Driver::name(events[0]) == "result";
	MC_CHECK(delivered, "result-lost", "the answer " + mc::quoted(response) + " causes " + showEvents(events));
	if (!delivered) return;
	auto& got = events[0].a[2].s;
	Node gotNode;
	bool parsed = got == "undefined" || StrictJson(got).document(gotNode);
	auto answered = n.find("result");
	MC_CHECK(parsed && alike(gotNode, answered ? *answered : Node::null()), "result", "the result " + mc::quoted(response) + " is delivered as " + mc::quoted(got));
	if (result) MC_CHECK(alike(gotNode, *result), "result", "the result is " + mc::quoted(got) + " instead of " + show(*result));
	mc::count("calls with results");
	mc::validated();
}

using Types = zoo::List<int32_t, double, bool, std::string, std::vector<int32_t>, std::vector<std::vector<std::string>>, std::map<std::string, int32_t>, One<int32_t>, Two<std::string, std::vector<int32_t>>, One<One<bool>>, std::vector<One<std::string>>,
	Recursive, Optional<double>, Optional<One<int32_t>>, ::Array, ::Object, Odd, Awkward, Name, std::vector<std::vector<Two<bool, Name>>>, Two<std::vector<Odd>, One<std::vector<double>>>, std::map<std::string, Name>, std::vector<std::map<std::string, bool>>,
	One<Two<::Object, Recursive>>, Tree, std::vector<Tree>>;
using Fewer = zoo::List<int32_t, bool, std::string, std::vector<double>, std::map<std::string, bool>, Name, std::vector<One<bool>>, Odd>;
template <typename... Ts> constexpr int count(zoo::List<Ts...>) { return sizeof...(Ts); }
template <typename... Ts, typename F> void withType(zoo::List<Ts...>, int index, F&& f) {
	int i = 0;
	((i++ == index ? f.template operator()<Ts>() : void()), ...);
}

#if PART == 0
static mc::Register everyValue("calls with every value", count(Types()) * 4, [] (int u) {
	withType(Types(), u / 4, [&]<typename T>() {
		DynamicRpcObject root;
		root.add("method", [] (T value = Bomba::name("value")) { return value; });
		root.add("aside", [] (Name name = Bomba::name("name"), One<bool> one = Bomba::name("one")) {});
		Service service(root);
		service.resolveParam("method", "value", of<T>());
		service.resolveParam("aside", "name", of<Name>());
		service.resolveParam("aside", "one", of<One<bool>>());
		int depth = mc::thorough() ? 4 : 3;
		std::vector<Value> values = {undefined(), null()};
		for (auto& it : rights(of<T>(), depth)) values.push_back(it);
		for (auto& it : wrongs(of<T>(), depth)) values.push_back(it);
		for (auto& it : anything()) if (fit(of<T>(), it) == Right) values.push_back(it);
		int mine = (int(values.size()) - u % 4 + 3) / 4;
		auto& value = values[mc::choose(mine) * 4 + u % 4];
		mc::describe(mc::fmt("type %d", u / 4));
		if (!service.load()) return;
		std::optional<Node> result;
		if (value.kind != Value::Null && value.kind != Value::Undefined && fit(of<T>(), value) == Right && exact(of<T>(), value)) result = node(value);
		verifyCall(service, "method", {{"value", of<T>(), value}}, result);
		verifyCall(service, "aside", {}, Node::null());
	});
});
#else
static std::vector<Value> some(Type* type) { // A few values of every kind
	std::vector<Value> r = {undefined()};
	auto right = rights(type, 2), wrong = wrongs(type, 2);
	r.push_back(right[0]);
	r.push_back(right.back());
	r.push_back(wrong[0]);
	for (auto& it : wrong) if (it.kind == Value::Array && it.elements.size() > 1) { r.push_back(it); break; }
	r.push_back(wrong.back());
	for (auto& it : wrong) if (it.kind == Value::Object) { r.push_back(it); break; }
	return r;
}
static mc::Register pairs("calls with two and three arguments", count(Fewer()) * count(Fewer()), [] (int u) {
	withType(Fewer(), u / count(Fewer()), [&]<typename T>() {
		withType(Fewer(), u % count(Fewer()), [&]<typename U>() {
			DynamicRpcObject root;
			int shape = mc::choose(2);
			std::vector<std::string> names = shape ? std::vector<std::string>{"2", "1", "it's"} : std::vector<std::string>{"b", "a", "c d"};
			if (shape) root.add("method", [] (T first = Bomba::name("2"), U second = Bomba::name("1"), Optional<T> third = Bomba::name("it's")) { Two<T, U> r; r.a = first; r.b = second; return r; });
			else root.add("method", [] (T first = Bomba::name("b"), U second = Bomba::name("a"), Optional<T> third = Bomba::name("c d")) { Two<T, U> r; r.a = first; r.b = second; return r; });
			Service service(root);
			service.resolveParam("method", names[0], of<T>());
			service.resolveParam("method", names[1], of<U>());
			auto first = mc::pick(some(of<T>())), second = mc::pick(some(of<U>()));
			auto thirds = some(of<T>());
			thirds.resize(4);
			auto third = mc::pick(thirds);
			mc::describe(mc::fmt("types %d shape %d", u, shape));
			if (!service.load()) return;
			std::vector<Argument> arguments = {{names[0], of<T>(), first}, {names[1], of<U>(), second}, {names[2], of<T>(), third}};
			std::optional<Node> result;
			bool present = true, exactly = true;
			for (auto& it : arguments) {
				if (&it != &arguments[2]) present = present && it.value.kind != Value::Undefined;
				if (it.value.kind != Value::Undefined) exactly = exactly && fit(it.type, it.value) == Right && exact(it.type, it.value);
			}
			if (present && exactly) { result = Node::object(); result->o = {{"a", node(first)}, {"b", node(second)}}; }
			while (arguments.size() && arguments.back().value.kind == Value::Undefined) arguments.pop_back();
			verifyCall(service, "method", arguments, result);
		});
	});
});
// Names
#define ODD_NAMES(X) X("plain") X("with space") X("it's") X("quo\"ted") X("back\\slash\\") X("new\nline\r\t") X("\xe2\x80\xa8\xe2\x80\xa9") X("*/") X("*/ throw 5 /*") X("constructor") X("toString") X("__proto__") X("gui") X("name") X("length") X("prototype") X("caller") X("arguments") \
	X("await") X("default") X("class") X("12") X("0x") X("") X("\xc4\x8d\xf0\x9f\x98\x80") X("hasOwnProperty") X("valueOf") X("then") X("toJSON") X("`${a}`") X("request") X("JSON") X("this") X("a-b") X("a_b") X("a b") X("</script>") X("path") X("response") X("getJson")
#define AS_TEXT(x) x,
static const std::vector<std::string> oddNames = {ODD_NAMES(AS_TEXT)};
static void addEcho(DynamicRpcObject& object, const std::string& name, const std::string& from) {
	object.add(name, [from] (std::string text = Bomba::name("text")) { return from + text; });
}
static void callEcho(Service& service, std::string path) {
	verifyCall(service, path, {{"text", of<std::string>(), text("said")}}, Node::string(path + "said"));
}
static mc::Register methodNames("names of methods and objects", int(oddNames.size()), [] (int u) {
	auto& first = oddNames[u];
	auto& second = mc::pick(oddNames);
	int shape = mc::choose(first == second ? 2 : 4);
	if (first.empty() || second.empty()) return; // These can't be reached
	mc::describe(mc::fmt("shape %d ", shape) + mc::quoted(first) + " " + mc::quoted(second));
	DynamicRpcObject root, inner, deeper;
	std::vector<std::string> all;
	auto echo = [&] (DynamicRpcObject& object, const std::string& prefix, const std::string& name) { addEcho(object, name, prefix + name); all.push_back(prefix + name); };
	switch (shape) {
	case 0: // A method in an object
		echo(inner, first + ".", second);
		root.add(first, std::move(inner));
		break;
	case 1: // Deeper, with others
		echo(deeper, first + "." + second + ".", first);
		echo(deeper, first + "." + second + ".", "other");
		inner.add(second, std::move(deeper));
		root.add(first, std::move(inner));
		echo(root, "", "other one");
		break;
	case 2: // Next to each other
		echo(root, "", first);
		echo(root, "", second);
		break;
	default: // An object next to a method
		echo(inner, first + ".", first);
		echo(inner, first + ".", second);
		root.add(first, std::move(inner));
		echo(root, "", second);
	}
	Service service(root);
	if (!service.load()) return;
	for (auto& it : all) callEcho(service, it);
});
#define ADD_ARGUMENTS(x) case __COUNTER__ - firstCounter - 1: root.add("method", [] (bool before = Bomba::name("before"), std::string text = Bomba::name(x), int32_t after = Bomba::name("a_b_")) { return text + (before ? "!" : "?") + std::to_string(after); }); break;
#define ADD_TWO(x) case __COUNTER__ - firstCounter2 - 1: root.add("method", [] (std::string text = Bomba::name(x), std::string text2 = Bomba::name(x "2"), std::string text3 = Bomba::name("arg_" x)) { return text + text2 + text3; }); break;
static mc::Register argumentNames("names of arguments", int(oddNames.size()), [] (int u) {
	auto& name = oddNames[u];
	DynamicRpcObject root;
	constexpr int firstCounter = __COUNTER__;
	int shape = mc::choose(2);
	if (shape == 0) {
		switch (u) { ODD_NAMES(ADD_ARGUMENTS) }
	} else {
		constexpr int firstCounter2 = __COUNTER__;
		switch (u) { ODD_NAMES(ADD_TWO) }
	}
	mc::describe(mc::quoted(name));
	Service service(root);
	if (!service.load()) return;
	auto value = mc::pick(std::vector<Value>{text("a"), number(5), undefined()});
	if (shape == 0) {
		std::optional<Node> result;
		if (value.kind == Value::String) result = Node::string("a!4");
		verifyCall(service, "method", {{"before", of<bool>(), boolean(true)}, {name, of<std::string>(), value}, {"a_b_", of<int32_t>(), number(4)}}, result);
	} else {
		std::optional<Node> result;
		if (value.kind == Value::String) result = Node::string("axy");
		verifyCall(service, "method", {{name, of<std::string>(), value}, {name + "2", of<std::string>(), text("x")}, {"arg_" + name, of<std::string>(), text("y")}}, result);
	}
});

// Names of types, they come from C++ but that limits only a part of names
static mc::Register typeNames("names of types", 1, [] (int) {
	static const std::vector<std::string> names = {"Array", "Object", "Error", "class", "await", "let", "eval", "this", "types", "getter", "JSON", "document", "undefined", "Infinity", "made", "code", "name", "Symbol", "Promise", "static", "yield", "async", "of", "null", "constructor", "__proto__", "toString", "_", "$a", "\xc4\x8d"};
	auto& name = mc::pick(names);
	mc::describe(name);
	DynamicRpcObject root;
	root.add("method", [] (std::vector<Name> list = Bomba::name("list"), Name one = Bomba::name("one")) { return one.name; });
	Service service(root);
	// The type is renamed in the description
	service.resolveParam("method", "one", of<Name>());
	auto old = "\"" + of<Name>()->name + "\"";
	for (size_t at; (at = service.description.find(old)) != std::string::npos; ) service.description.replace(at, old.size(), "\"" + name + "\"");
	StrictJson(service.description).document(service.described = Node());
	service.resolveParam("method", "one", of<Name>());
	MC_CHECK(of<Name>()->name == name, "harness", "renaming failed");
	if (!service.load()) return;
	auto right = rights(of<Name>(), 2);
	auto values = wrongs(of<Name>(), 2);
	values.insert(values.begin(), right.begin(), right.end());
	auto value = mc::pick(values);
	bool fits = fit(of<Name>(), value) == Right && exact(of<Name>(), value);
	if (mc::choose(2)) verifyCall(service, "method", {{"list", of<std::vector<Name>>(), array({right[0], value})}, {"one", of<Name>(), right[0]}}, fits ? std::optional(Node::string("text")) : std::nullopt);
	else verifyCall(service, "method", {{"list", of<std::vector<Name>>(), array({})}, {"one", of<Name>(), value}}, fits ? std::optional(node(value).o[0].second) : std::nullopt);
});

// Calls at the same time
static mc::Register concurrent("concurrent calls and all ways to end", 8, [] (int u) {
	DynamicRpcObject root, inner;
	addEcho(root, "echo", "");
	inner.add("fail", [] (std::string text = Bomba::name("text")) { if (text.size() > 1) throw std::runtime_error("it failed"); return text; });
	root.add("inner", std::move(inner));
	Service service(root);
	mc::describe("");
	if (!service.load()) return;
	struct Call { Sent sent; std::string text; bool fails; };
	std::vector<Call> unanswered;
	std::set<std::string> ids;
	int made = 0, most = mc::thorough() ? 4 : 3;
	std::vector<int> indices; // Of those not answered
	while (!mc::failed() && (made < most || unanswered.size())) {
		int action = made == 0 ? u % 2 : mc::choose((made < most ? 2 : 0) + int(unanswered.size()) * 6);
		if (made == 1 && action < 2) action = action ? 99 : u / 4; // The first two methods are given by the unit
		if (action == 99) return;
		if (made < most && action < 2) {
			Call call{{}, std::string(1 + (made + u / 2) % 2, char('a' + made)), false};
			std::string method = action ? "inner.fail" : "echo";
			call.fails = action && call.text.size() > 1;
			std::vector<Argument> arguments = {{"text", of<std::string>(), text(call.text)}};
			auto sending = callCommand(method, arguments);
			mc::describeMore(method + "(" + call.text + ") ");
			mc::step(sending);
			auto events = driver()(sending);
			bool asked = isSent(events, call.sent);
			MC_CHECK(asked, "not-sent", "a correct call causes " + showEvents(events));
			std::string id;
			if (!asked || !rightRequest(call.sent, method, arguments, "", id)) return;
			MC_CHECK(ids.insert(id).second, "id", "the ID " + id + " is repeated");
			unanswered.push_back(call);
			indices.push_back(made++);
			continue;
		}
		if (made < most) action -= 2;
		int which = action / 6, how = action % 6;
		auto call = unanswered[which];
		int index = indices[which];
		unanswered.erase(unanswered.begin() + which);
		indices.erase(indices.begin() + which);
		std::string response, answer;
		int status = 200;
		bool error = how != 0 || call.fails;
		switch (how) {
		case 0:
			if (!exchange(service.server, call.sent.body, status, response)) return mc::fail("server", "the server does not respond");
			break;
		case 1: response = "Error 500"; status = 500; break;
		case 2: response = "{\"jsonrpc\":\"2.0\",\"error\":{\"code\":-1,\"message\":\"\"},\"id\":0}"; break;
		case 3: response = ""; break;
		case 4: response = "{\"jsonrpc\":\"2.0\",\"error\":{\"code\":-32601,\"message\":\"other\"},\"id\":null}"; status = 404; break;
		}
		mc::describeMore(mc::fmt("answer %d by %d ", index, how));
		auto events = how == 5 ? driver()(mc::fmt("[\"fail\",%d]", call.sent.index)) : driver()(mc::fmt("[\"answer\",%d,%d,", call.sent.index, status) + jsonText(response) + "]");
		mc::step(showEvents(events));
		bool one = events.size() == 1 && Driver::name(events[0]) == (error ? "error" : "result") && events[0].a[1].i == index;
		MC_CHECK(one, error ? "error-lost" : "result-lost", mc::fmt("the answer to call %d causes ", index) + showEvents(events));
		if (one && !error) MC_CHECK(events[0].a[2].s == "\"" + call.text + "\"", "result", "the result is " + events[0].a[2].s + " instead of " + call.text);
		if (one && how == 4) MC_CHECK(events[0].a[2].s == "other", "error-message", "the error is " + events[0].a[2].s);
		if (one && how == 0 && error) MC_CHECK(events[0].a[2].s == "it failed", "error-message", "the error is " + events[0].a[2].s);
	}
	if (!mc::failed()) mc::validated();
});

// Addresses
static mc::Register addresses("addresses and environments", 1, [] (int) {
	struct Address { const char* mode; const char* path; const char* description; const char* calls; };
	static const std::vector<Address> all = {
		{"browser", nullptr, "api_description.json", ""},
		{"browser", "", "api_description.json", ""},
		{"browser", "http://example.com:81/", "http://example.com:81/api_description.json", "http://example.com:81/"},
		{"browser", "http://example.com:81", "http://example.com:81/api_description.json", "http://example.com:81"},
		{"browser", "somewhere/", "somewhere/api_description.json", "somewhere/"},
		{"node", nullptr, "http://0.0.0.0:8080/api_description.json", "http://0.0.0.0:8080/"},
		{"node", "http://0.0.0.0:8081/", "http://0.0.0.0:8081/api_description.json", "http://0.0.0.0:8081/"},
		{"node", "http://0.0.0.0:8081", "http://0.0.0.0:8081/api_description.json", "http://0.0.0.0:8081"},
		{"node", "0.0.0.0:8080", "http://0.0.0.0:8080/api_description.json", "http://0.0.0.0:8080"},
		{"node", "https://example.com/rpc/", "https://example.com/rpc/api_description.json", "https://example.com/rpc/"},
	};
	auto& address = mc::pick(all);
	mc::describe(mc::fmt("%s %s", address.mode, address.path ? address.path : "none"));
	DynamicRpcObject root;
	addEcho(root, "echo", "echo");
	Service service(root);
	if (!service.load(address.mode, address.path, address.description)) return;
	for (int i = mc::choose(3); i >= 0; i--) verifyCall(service, "echo", {{"text", of<std::string>(), text("said")}}, Node::string("echosaid"), address.calls, address.mode);
});
// Descriptions that can't be obtained
static mc::Register unavailable("descriptions that are unavailable", 2, [] (int u) {
	Sent sent;
	auto mode = u ? "node" : "browser";
	auto events = driver()(mc::fmt("[\"load\",\"%s\",null]", mode));
	MC_CHECK(isSent(events, sent), "description-asked", "loading causes " + showEvents(events));
	if (mc::failed()) return;
	int how = mc::choose(4);
	mc::describe(mc::fmt("%d", how));
	static const std::vector<std::string> bad = {"", "Error 404", "{\"type\":", "null"};
	events = how == 3 ? driver()(mc::fmt("[\"fail\",%d]", sent.index)) : driver()(mc::fmt("[\"answer\",%d,%d,", sent.index, how == 1 ? 404 : 200) + jsonText(bad[how]) + "]");
	MC_CHECK(events.size() == 1 && Driver::name(events[0]) == "load failed", "load-error-lost", "causes " + showEvents(events));
	mc::validated();
});
#endif
