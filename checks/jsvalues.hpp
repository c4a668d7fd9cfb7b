// Descriptions of types and values as the JavaScript client should see them
#ifndef JSVALUES_HPP
#define JSVALUES_HPP
#include "jszoo.hpp"
#include <set>
using namespace jszoo;

// More types
struct Recursive : Serialisable<Recursive> {
	std::string value = key<"value">;
	std::vector<Recursive> children = key<"children">;
};
struct Array : Serialisable<Array> { std::vector<int32_t> flags = key<"flags">; };
struct Object : Serialisable<Object> { std::map<std::string, Array> object = key<"object">; Array array = key<"array">; };
struct Odd : Serialisable<Odd> {
	std::string quoted = key<"\"quo'ted\"">;
	int32_t spaced = key<"with space">;
	bool slashed = key<"back\\slash\n">;
	double unicode = key<"\xc4\x8d\xf0\x9f\x98\x80">;
	std::vector<int32_t> empty = key<"">;
};
struct Awkward : Serialisable<Awkward> {
	std::string constructor = key<"constructor">;
	bool toJson = key<"toJson">;
	int32_t gui = key<"gui">;
	One<bool> proto = key<"__proto__">;
	std::vector<std::string> comment = key<"*/">;
	int32_t await = key<"await">;
	int32_t template_ = key<"`${x}">;
};
struct Tree : Serialisable<Tree> { // Part of itself
	int32_t number = key<"number">;
	std::shared_ptr<Tree> left = key<"left">, right = key<"right">;
};
struct Name : Serialisable<Name> { std::string name = key<"name">; int32_t type = key<"type">; };

// What a type is expected to be on the side of the client
struct Type {
	enum Kind { Number, Boolean, String, Array, Map, Class } kind;
	bool integral = false;
	Type* element = nullptr;
	std::string name; // In the description
	std::vector<std::pair<std::string, Type*>> members;
};
template <typename T> struct Of;
template <typename T> Type* of() { return Of<T>::get(); }
template <typename T> requires std::is_arithmetic_v<T> struct Of<T> {
	static Type* get() { static Type t{std::is_same_v<T, bool> ? Type::Boolean : Type::Number, std::is_integral_v<T>}; return &t; }
};
template <> struct Of<std::string> { static Type* get() { static Type t{Type::String}; return &t; } };
template <typename T> struct Of<std::vector<T>> { static Type* get() { static Type t{Type::Array}; if (!t.element) t.element = of<T>(); return &t; } };
template <typename T> struct Of<std::map<std::string, T>> { static Type* get() { static Type t{Type::Map}; if (!t.element) t.element = of<T>(); return &t; } };
template <typename T> struct Of<Optional<T>> { static Type* get() { return of<T>(); } };
static std::vector<Type*> classes;
template <typename T, typename... M> Type* classOf(std::initializer_list<const char*> names) {
	static Type t{Type::Class};
	if (t.members.empty()) {
		classes.push_back(&t);
		for (auto it : names) t.members.push_back({it, nullptr});
		int i = 0;
		((t.members[i++].second = of<M>()), ...);
	}
	return &t;
}
template <typename T> struct Of<One<T>> { static Type* get() { return classOf<One<T>, T>({"a"}); } };
template <typename T, typename U> struct Of<Two<T, U>> { static Type* get() { return classOf<Two<T, U>, T, U>({"a", "b"}); } };
#define OF(T, NAMES, ...) template <> struct Of<T> { static Type* get() { return classOf<T, __VA_ARGS__>(std::initializer_list<const char*> NAMES); } };
OF(Recursive, ({"value", "children"}), std::string, std::vector<Recursive>)
OF(::Array, ({"flags"}), std::vector<int32_t>)
OF(::Object, ({"object", "array"}), std::map<std::string, ::Array>, ::Array)
OF(Odd, ({"\"quo'ted\"", "with space", "back\\slash\n", "\xc4\x8d\xf0\x9f\x98\x80", ""}), std::string, int32_t, bool, double, std::vector<int32_t>)
OF(Awkward, ({"constructor", "toJson", "gui", "__proto__", "*/", "await", "`${x}"}), std::string, bool, int32_t, One<bool>, std::vector<std::string>, int32_t, int32_t)
OF(Tree, ({"number", "left", "right"}), int32_t, Tree, Tree)
OF(Name, ({"name", "type"}), std::string, int32_t)

// Learns how the classes are called
static void resolve(Type* type, const Node& described, const Node& types) {
	switch (type->kind) {
	case Type::Array:
		if (described.kind == Node::Arr && described.a.size() == 1) resolve(type->element, described.a[0], types);
		return;
	case Type::Class:
		if (described.kind != Node::Str || type->name == described.s) return;
		type->name = described.s;
		if (auto definition = types.find(described.s))
			for (auto& [name, it] : type->members)
				if (auto member = definition->find(name)) resolve(it, *member, types);
		return;
	default:
		return;
	}
}

// A value in JavaScript
struct Value {
	enum Kind { Number, String, Boolean, Array, Object, Instance, Null, Undefined, Other } kind = Null;
	double number = 0;
	bool boolean = false, made = false; // Made by giving members to constructor
	std::string string; // Or what other it is
	std::vector<Value> elements;
	std::vector<std::pair<std::string, Value>> members;
	Type* type = nullptr;
};
static Value number(double d) { return {.kind = Value::Number, .number = d}; }
static Value text(std::string s) { return {.kind = Value::String, .string = s}; }
static Value boolean(bool b) { return {.kind = Value::Boolean, .boolean = b}; }
static Value array(std::vector<Value> v) { return {.kind = Value::Array, .elements = v}; }
static Value object(std::vector<std::pair<std::string, Value>> v) { return {.kind = Value::Object, .members = v}; }
static Value null() { return {}; }
static Value undefined() { return {.kind = Value::Undefined}; }
static Value other(std::string what) { return {.kind = Value::Other, .string = what}; }

static std::string command(const Value& v) {
	std::string r;
	switch (v.kind) {
	case Value::Number: return mc::fmt("[\"number\",%.17g]", v.number);
	case Value::String: return "[\"string\"," + jsonText(v.string) + "]";
	case Value::Boolean: return v.boolean ? "[\"boolean\",true]" : "[\"boolean\",false]";
	case Value::Array:
		r = "[\"array\"";
		for (auto& it : v.elements) r += "," + command(it);
		return r + "]";
	case Value::Object:
	case Value::Instance:
		r = v.kind == Value::Object ? "[\"object\"" : v.made ? "[\"made\"," + jsonText(v.type->name) : "[\"instance\"," + jsonText(v.type->name);
		for (auto& [name, it] : v.members) r += ",[" + jsonText(name) + "," + command(it) + "]";
		return r + "]";
	case Value::Null: return "[\"null\"]";
	case Value::Undefined: return "[\"undefined\"]";
	default: return "[" + jsonText(v.string) + "]";
	}
}
static bool absent(const Value& v) { return v.kind == Value::Null || v.kind == Value::Undefined; }
static Node node(const Value& v) { // What it is in JSON
	Node r;
	switch (v.kind) {
	case Value::Number: return Node::floating(v.number);
	case Value::String: return Node::string(v.string);
	case Value::Boolean: return Node::boolean(v.boolean);
	case Value::Array:
		r = Node::array();
		for (auto& it : v.elements) r.a.push_back(node(it));
		return r;
	case Value::Object:
	case Value::Instance:
		r = Node::object();
		for (size_t i = 0; i < v.members.size(); i++) {
			auto& [name, it] = v.members[i];
			if (v.kind == Value::Instance && absent(it) && v.type->members[i].second->kind == Type::Class) continue;
			r.o.push_back({name, node(it)});
		}
		return r;
	default: return r;
	}
}
static bool alike(const Node& a, const Node& b) { // Order of members does not matter
	if (a.kind == Node::Int || a.kind == Node::Float) return (b.kind == Node::Int || b.kind == Node::Float) && (a.kind == Node::Int ? double(a.i) : a.d) == (b.kind == Node::Int ? double(b.i) : b.d);
	if (a.kind != b.kind) return false;
	if (a.kind == Node::Arr) {
		if (a.a.size() != b.a.size()) return false;
		for (size_t i = 0; i < a.a.size(); i++) if (!alike(a.a[i], b.a[i])) return false;
		return true;
	}
	if (a.kind == Node::Obj) {
		if (a.o.size() != b.o.size()) return false;
		for (auto& [name, it] : a.o) {
			auto found = b.find(name);
			if (!found || !alike(it, *found)) return false;
		}
		return true;
	}
	return sameNode(a, b);
}

enum Fit { Wrong, Unspecified, Right };
static Fit fit(Type* type, const Value& v) {
	Fit worst = Right;
	switch (type->kind) {
	case Type::Number: return v.kind == Value::Number ? Right : Wrong;
	case Type::Boolean: return v.kind == Value::Boolean ? Right : Wrong;
	case Type::String: return v.kind == Value::String ? Right : Wrong;
	case Type::Array:
		if (v.kind != Value::Array) return Wrong;
		for (auto& it : v.elements) worst = std::min(worst, fit(type->element, it));
		return worst;
	case Type::Map: // The types of values are not described
		if (v.kind == Value::Instance || (v.kind == Value::Other && v.string == "date")) return Unspecified;
		if (v.kind != Value::Object) return Wrong;
		for (auto& [name, it] : v.members) if (fit(type->element, it) != Right) return Unspecified;
		return Right;
	default:
		if (v.kind != Value::Instance || v.type != type) return Wrong;
		for (size_t i = 0; i < type->members.size(); i++) {
			auto& member = v.members[i].second;
			if (type->members[i].second->kind == Type::Class && absent(member)) continue;
			else worst = std::min(worst, fit(type->members[i].second, member));
		}
		return worst;
	}
}
static bool exact(Type* type, const Value& v) { // The server has to understand it
	switch (type->kind) {
	case Type::Number: return !type->integral || v.number == int32_t(v.number);
	case Type::Array:
		for (auto& it : v.elements) if (!exact(type->element, it)) return false;
		return true;
	case Type::Map:
		for (auto& [name, it] : v.members) if (!exact(type->element, it)) return false;
		return true;
	case Type::Class:
		for (size_t i = 0; i < type->members.size(); i++) if (absent(v.members[i].second) || !exact(type->members[i].second, v.members[i].second)) return false;
		return true;
	default: return true;
	}
}
static std::vector<Value> rights(Type* type, int depth) {
	std::vector<Value> r;
	switch (type->kind) {
	case Type::Number: return {number(7), number(0), number(-3), number(1.5), number(2147483647)};
	case Type::Boolean: return {boolean(true), boolean(false)};
	case Type::String: return {text("text"), text(""), text("q\"u'o\\t\ne \xc4\x8d\xf0\x9f\x98\x80 </script>"), text("5")};
	case Type::Array: {
		if (depth <= 0) return {array({})};
		auto of = rights(type->element, depth - 1);
		r = {array({of[0]}), array({}), array(of)};
		for (size_t i = 1; i < of.size() && i < 4; i++) r.push_back(array({of[i], of[0]}));
		return r;
	}
	case Type::Map: {
		if (depth <= 0) return {object({})};
		auto of = rights(type->element, depth - 1);
		r = {object({{"k", of[0]}}), object({}), object({{"k e\"y", of[0]}, {"other", of.back()}})};
		return r;
	}
	default: {
		if (depth < -2) return {null()};
		std::vector<std::vector<Value>> of;
		size_t most = 1;
		for (auto& [name, it] : type->members) {
			of.push_back(it == type && depth <= 0 ? std::vector<Value>{null()} : rights(it, depth - 1));
			if (it->kind == Type::Class) of.back().push_back(depth % 2 ? null() : undefined());
			most = std::max(most, of.back().size());
		}
		for (size_t i = 0; i < most; i++) {
			Value v{.kind = Value::Instance, .made = i % 2 == 1};
			v.type = type;
			for (size_t j = 0; j < of.size(); j++) v.members.push_back({type->members[j].first, of[j][(i + (i ? j : 0)) % of[j].size()]});
			r.push_back(v);
		}
		return r;
	}
	}
}
static const std::vector<Value>& anything() {
	static const std::vector<Value> all = {number(5), text("text"), text(""), text("5"), boolean(true), boolean(false), null(), undefined(), other("bigint"), other("function"), other("symbol"), other("date"),
		array({}), array({number(1)}), array({text("a")}), array({boolean(true)}), array({null()}), array({array({})}), array({array({text("a")})}), array({object({})}),
		object({}), object({{"a", number(1)}}), object({{"k", number(5)}}), object({{"length", number(0)}})};
	return all;
}
static std::vector<Value> wrongs(Type* type, int depth) {
	std::vector<Value> r;
	for (auto& it : anything()) if (fit(type, it) == Wrong) r.push_back(it);
	for (auto it : {of<One<bool>>(), of<Name>()}) if (it != type && !it->name.empty() && type->kind != Type::Map) r.push_back(rights(it, 1)[0]);
	if (depth <= 0) return r;
	auto right = rights(type, depth);
	switch (type->kind) {
	case Type::Array:
		for (auto& it : wrongs(type->element, depth - 1)) {
			r.push_back(array({it}));
			auto more = right[2];
			more.elements.insert(more.elements.begin() + 1, it);
			r.push_back(more);
			more = right[0];
			more.elements.push_back(it);
			r.push_back(more);
		}
		break;
	case Type::Class:
		for (size_t i = 0; i < type->members.size(); i++)
			for (auto& it : wrongs(type->members[i].second, depth - 1)) {
				auto changed = right[0];
				changed.members[i].second = it;
				changed.made = it.kind != Value::Undefined && r.size() % 2;
				if (fit(type, changed) == Wrong) r.push_back(changed);
			}
		{
			auto plain = right[0];
			plain.kind = Value::Object;
			r.push_back(plain);
		}
		break;
	default:
		break;
	}
	return r;
}

// Something described that can be called
struct Service {
	JsonRpcServer<> server;
	std::string description;
	Node described;
	Node loaded;
	bool ok = false;
	Service(IRemoteCallable& object) : server(object), description(describeInJsonWsp<std::string>(object, "example.com", "The \"Service\"")) {
		for (auto it : classes) it->name.clear();
		StrictJson json(description);
		MC_CHECK(json.document(described), "description", "the description is not valid JSON");
	}
	void resolveParam(const std::string& method, const std::string& name, Type* type) {
		auto methods = described.find("methods");
		auto types = described.find("types");
		auto it = methods ? methods->find(method) : nullptr;
		auto params = it ? it->find("params") : nullptr;
		auto param = params ? params->find(name) : nullptr;
		if (param && param->find("type") && types) resolve(type, *param->find("type"), *types);
	}
	bool load(std::string mode = "browser", const char* path = nullptr, std::string url = "api_description.json") {
		auto event = jszoo::load(description, mode, path, url);
		if (!event) return false;
		loaded = *event;
		// The methods have to be where they belong
		std::map<std::string, std::string> due, got;
		for (auto& [name, it] : described.find("methods")->o) {
			due[name] = "method";
			for (size_t i = name.find('.'); i != std::string::npos; i = name.find('.', i + 1)) due[name.substr(0, i)] = "object";
		}
		for (auto& it : loaded.a[1].a) got[it.a[0].s] = it.a[1].s;
		for (auto& [name, kind] : due) {
			MC_CHECK(got.count(name), "missing", kind + " " + mc::quoted(name) + " is not in the API");
			MC_CHECK(!got.count(name) || got[name] == kind, "different", mc::quoted(name) + " should be " + kind + " and is " + got[name]);
		}
		for (auto& [name, kind] : got) MC_CHECK(due.count(name), "superfluous", kind + " " + mc::quoted(name) + " is in the API and should not");
		std::set<std::string> types;
		for (auto& it : loaded.a[2].a) types.insert(it.s);
		for (auto& [name, it] : described.find("types")->o) MC_CHECK(types.count(name), "missing-type", "the type " + name + " is missing");
		MC_CHECK(types.size() == described.find("types")->o.size(), "superfluous-type", "there are more types than should be");
		MC_CHECK(loaded.a[3].s == "The \"Service\"", "service-name", "the name of the service is " + mc::quoted(loaded.a[3].s));
		ok = !mc::failed();
		return ok;
	}
};
struct Argument { std::string name; Type* type; Value value; };
static std::vector<std::string> split(std::string_view path) {
	std::vector<std::string> r = {""};
	for (char c : path) if (c == '.') r.emplace_back(); else r.back() += c;
	return r;
}
static std::string callCommand(std::string_view method, const std::vector<Argument>& arguments) {
	std::string r = "[\"call\"," + pathText(split(method)) + ",[";
	for (size_t i = 0; i < arguments.size(); i++) r += (i ? "," : "") + command(arguments[i].value);
	return r + "]]";
}
// What should be sent is sent and nothing else
static bool rightRequest(const Sent& sent, std::string_view method, const std::vector<Argument>& arguments, std::string url, std::string& id) {
	MC_CHECK(sent.method == "POST" && sent.type == "application/json" && sent.url == url, "request-http", "the request is sent as " + sent.method + " " + sent.url + " " + sent.type + " instead of POST " + url);
	StrictJson json(sent.body);
	Node n;
	bool valid = json.document(n) && n.kind == Node::Obj;
	MC_CHECK(valid, "request-json", "the request is not an object in JSON: " + mc::quoted(sent.body, 400));
	if (!valid) return false;
	auto member = [&] (std::string_view name) { auto found = n.find(name); return found ? *found : Node::null(); };
	auto methodSent = member("method"), version = member("jsonrpc"), idSent = member("id"), params = member("params");
	MC_CHECK(methodSent.kind == Node::Str && methodSent.s == method, "request-method", "the method " + show(methodSent) + " is called instead of " + std::string(method));
	MC_CHECK(version.kind == Node::Str && version.s == "2.0", "request-version", "the version is " + show(version));
	MC_CHECK(idSent.kind == Node::Int || idSent.kind == Node::Str || idSent.kind == Node::Float, "request-id", "the ID is " + show(idSent));
	id = show(idSent);
	Node due = Node::object();
	for (auto& it : arguments) if (it.value.kind != Value::Null && it.value.kind != Value::Undefined) due.o.push_back({it.name, node(it.value)});
	MC_CHECK(alike(due, params) || (due.o.empty() && !n.find("params")), "request-params", "the parameters are " + show(params) + " instead of " + show(due));
	return !mc::failed();
}
#endif
