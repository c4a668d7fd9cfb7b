// C21: descriptions of remote objects in JSON-WSP
#include "httpzoo.hpp"
#include "bomba_json_rpc.hpp"
#include "bomba_json_wsp_description.hpp"
#include "rpczoo.hpp"
using namespace httpzoo;
#ifndef PART
#define PART 0
#endif
constexpr int parts = 6;

// More types
struct Recursive : Serialisable<Recursive> {
	std::string value = key<"value">;
	std::vector<Recursive> children = key<"children">;
};
struct Mutual2;
struct Mutual1 : Serialisable<Mutual1> {
	int32_t one = key<"one">;
	std::vector<Mutual2> others = key<"others">;
	Mutual1();
	Mutual1(const Mutual1&);
	Mutual1& operator=(const Mutual1&);
	~Mutual1();
};
struct Mutual2 : Serialisable<Mutual2> {
	bool two = key<"two">;
	std::map<std::string, Mutual1> others = key<"others">;
	One<std::string> aside = key<"aside">;
};
Mutual1::Mutual1() = default;
Mutual1::Mutual1(const Mutual1&) = default;
Mutual1& Mutual1::operator=(const Mutual1&) = default;
Mutual1::~Mutual1() = default;
namespace first { struct Item : Serialisable<Item> { int32_t inFirst = key<"inFirst">; }; }
namespace second { struct Item : Serialisable<Item> { std::string inSecond = key<"inSecond">; first::Item other = key<"other">; }; }
struct Item : Serialisable<Item> { bool global = key<"global">; };
struct _Item : Serialisable<_Item> { double underscored = key<"underscored">; };
struct Item2 : Serialisable<Item2> { std::vector<_Item> both = key<"both">; Item aside = key<"aside">; };
struct Empty : Serialisable<Empty> {};
struct Nested : Serialisable<Nested> {
	struct Inner : Serialisable<Inner> {
		struct Innermost : Serialisable<Innermost> { std::string text = key<"text">; };
		Innermost innermost = key<"innermost">;
		Optional<Innermost> maybe = key<"maybe">;
	};
	std::array<Inner, 2> inner = key<"inner">;
	std::vector<std::map<std::string, Inner>> more = key<"more">;
	int aside = 3;
};
struct Odd : Serialisable<Odd> {
	std::string quoted = key<"\"quoted\"">;
	int32_t spaced = key<"with space">;
	bool slashed = key<"back\\slash\n">;
	double unicode = key<"\xc4\x8d\xf0\x9f\x98\x80">;
	std::shared_ptr<Empty> empty = key<"">;
};

// What the description of a type should be
struct TypeDue {
	enum Kind { Number, Boolean, String, Array, Map, Object, Null } kind;
	std::shared_ptr<TypeDue> element;
	int object = -1; // Index of the definition
};
struct Defined { std::vector<std::pair<std::string, TypeDue>> members; };
struct Types {
	std::vector<Defined> defined;
	std::map<std::string, int> byName; // Names of types in C++
};
template <typename T> struct Due;
template <typename T> TypeDue due(Types& types) { return Due<T>::get(types); }
template <typename T> requires std::integral<T> struct Due<T> { static TypeDue get(Types&) { return {std::is_same_v<T, bool> ? TypeDue::Boolean : TypeDue::Number}; } };
template <std::floating_point T> struct Due<T> { static TypeDue get(Types&) { return {TypeDue::Number}; } };
template <> struct Due<std::string> { static TypeDue get(Types&) { return {TypeDue::String}; } };
template <> struct Due<void> { static TypeDue get(Types&) { return {TypeDue::Null}; } };
template <typename T> TypeDue arrayOf(Types& types) { return {TypeDue::Array, std::make_shared<TypeDue>(due<T>(types))}; }
template <typename T> struct Due<std::vector<T>> { static TypeDue get(Types& types) { return arrayOf<T>(types); } };
template <typename T, size_t N> struct Due<std::array<T, N>> { static TypeDue get(Types& types) { return arrayOf<T>(types); } };
template <typename T> struct Due<std::map<std::string, T>> { static TypeDue get(Types& types) { due<T>(types); return {TypeDue::Map}; } };
template <typename T> struct Due<Optional<T>> { static TypeDue get(Types& types) { return due<T>(types); } };
template <typename T> struct Due<std::unique_ptr<T>> { static TypeDue get(Types& types) { return due<T>(types); } };
template <typename T> struct Due<std::shared_ptr<T>> { static TypeDue get(Types& types) { return due<T>(types); } };
using Members = std::vector<std::pair<std::string, TypeDue>>;
template <typename T> TypeDue objectOf(Types& types, std::function<void(Members&)> fill) {
	std::string name = typeid(T).name();
	auto found = types.byName.find(name);
	if (found != types.byName.end()) return {TypeDue::Object, nullptr, found->second};
	int index = int(types.defined.size());
	types.byName[name] = index;
	types.defined.emplace_back();
	Members members;
	fill(members);
	types.defined[index].members = members;
	return {TypeDue::Object, nullptr, index};
}
template <typename T> struct Due<One<T>> { static TypeDue get(Types& types) { return objectOf<One<T>>(types, [&] (Members& m) { m = {{"a", due<T>(types)}}; }); } };
template <typename T, typename U> struct Due<Two<T, U>> { static TypeDue get(Types& types) { return objectOf<Two<T, U>>(types, [&] (Members& m) { m = {{"a", due<T>(types)}, {"b", due<U>(types)}}; }); } };
template <typename T, typename U, typename V> struct Due<Three<T, U, V>> {
	static TypeDue get(Types& types) { return objectOf<Three<T, U, V>>(types, [&] (Members& m) { m = {{"first", due<T>(types)}, {"second", due<U>(types)}, {"first2", due<V>(types)}}; }); }
};
#define DUE(T, ...) template <> struct Due<T> { static TypeDue get(Types& types) { return objectOf<T>(types, [&] (Members& m) { m = {__VA_ARGS__}; }); } };
#define MEMBER(NAME, ...) {NAME, due<__VA_ARGS__>(types)}
DUE(Recursive, MEMBER("value", std::string), MEMBER("children", std::vector<Recursive>))
template <> struct Due<Mutual2>;
DUE(Mutual1, MEMBER("one", int32_t), MEMBER("others", std::vector<Mutual2>))
DUE(first::Item, MEMBER("inFirst", int32_t))
DUE(second::Item, MEMBER("inSecond", std::string), MEMBER("other", first::Item))
DUE(Item, MEMBER("global", bool))
DUE(_Item, MEMBER("underscored", double))
DUE(Item2, MEMBER("both", std::vector<_Item>), MEMBER("aside", Item))
DUE(Empty)
DUE(Mutual2, MEMBER("two", bool), MEMBER("others", std::map<std::string, Mutual1>), MEMBER("aside", One<std::string>))
DUE(Nested::Inner::Innermost, MEMBER("text", std::string))
DUE(Nested::Inner, MEMBER("innermost", Nested::Inner::Innermost), MEMBER("maybe", Nested::Inner::Innermost))
DUE(Nested, MEMBER("inner", std::vector<Nested::Inner>), MEMBER("more", std::vector<std::map<std::string, Nested::Inner>>))
DUE(Odd, MEMBER("\"quoted\"", std::string), MEMBER("with space", int32_t), MEMBER("back\\slash\n", bool), MEMBER("\xc4\x8d\xf0\x9f\x98\x80", double), MEMBER("", Empty))

struct MethodDue {
	std::string path;
	std::vector<std::pair<std::string, TypeDue>> params;
	TypeDue result;
};

// Compares a real description with what it should be
struct Comparison {
	const Types& types;
	std::map<int, std::string> names; // Of the types
	std::map<std::string, int> named;
	std::string problem;
	bool wrong(std::string what) {
		if (problem.empty()) problem = what;
		return false;
	}
	bool isText(const Node& n, std::string_view text) { return n.kind == Node::Str && n.s == text; }
	bool type(const Node& n, const TypeDue& due, const std::string& where) {
		switch (due.kind) {
		case TypeDue::Number: return isText(n, "number") || wrong("the type of " + where + " should be number and not " + show(n));
		case TypeDue::Boolean: return isText(n, "boolean") || wrong("the type of " + where + " should be boolean and not " + show(n));
		case TypeDue::String: return isText(n, "string") || wrong("the type of " + where + " should be string and not " + show(n));
		case TypeDue::Map: return isText(n, "object") || wrong("the type of " + where + " should be object and not " + show(n));
		case TypeDue::Null: return n.kind == Node::Null || wrong("the type of " + where + " should be null and not " + show(n));
		case TypeDue::Array:
			if (n.kind != Node::Arr || n.a.size() != 1) return wrong("the type of " + where + " should be an array and not " + show(n));
			return type(n.a[0], *due.element, "elements of " + where);
		default:
			if (n.kind != Node::Str) return wrong("the type of " + where + " should be a name of type and not " + show(n));
			for (auto it : {"number", "boolean", "string", "object", ""}) if (n.s == it) return wrong("the type of " + where + " should be a name of type and not " + show(n));
			auto known = names.find(due.object);
			if (known != names.end()) return known->second == n.s || wrong("the type of " + where + " is " + n.s + " but it was " + known->second);
			if (named.count(n.s)) return wrong("the type " + n.s + " of " + where + " stands for different types");
			names[due.object] = n.s;
			named[n.s] = due.object;
			return true;
		}
	}
	bool members(const Node& n, std::initializer_list<std::string_view> due, const std::string& where) {
		if (n.kind != Node::Obj || n.o.size() != due.size()) return wrong(where + " has wrong members: " + show(n));
		for (auto& it : due) {
			int count = 0;
			for (auto& member : n.o) if (member.first == it) count++;
			if (count != 1) return wrong(where + " has no member " + std::string(it) + " or more");
		}
		return true;
	}
	bool docLines(const Node& n, const std::string& where) { return (n.kind == Node::Arr && n.a.empty()) || wrong(where + " has wrong lines of documentation"); }
	bool whole(const Node& n, const std::vector<MethodDue>& methods, std::string_view url, std::string_view service) {
		if (!members(n, {"type", "version", "servicename", "url", "types", "methods"}, "the description")) return false;
		if (!isText(*n.find("type"), "jsonwsp/description") || !isText(*n.find("version"), "1.0")) return wrong("wrong type or version");
		if (!isText(*n.find("servicename"), service) || !isText(*n.find("url"), url)) return wrong("wrong name or address of the service");
		auto& got = *n.find("methods");
		if (got.kind != Node::Obj || got.o.size() != methods.size()) return wrong(mc::fmt("there are %zu methods instead of %zu", got.o.size(), methods.size()));
		for (size_t i = 0; i < methods.size(); i++) {
			auto& due = methods[i];
			if (got.o[i].first != due.path) return wrong("method " + due.path + " is described as " + got.o[i].first);
			auto& method = got.o[i].second;
			if (!members(method, {"doc_lines", "params", "ret_info"}, due.path) || !docLines(*method.find("doc_lines"), due.path)) return false;
			auto& params = *method.find("params");
			if (params.kind != Node::Obj || params.o.size() != due.params.size()) return wrong(mc::fmt("%zu parameters are described instead of %zu in ", params.o.size(), due.params.size()) + due.path);
			for (size_t j = 0; j < due.params.size(); j++) {
				auto where = "parameter " + due.params[j].first + " of " + due.path;
				if (params.o[j].first != due.params[j].first) return wrong(where + " is described as " + params.o[j].first);
				auto& param = params.o[j].second;
				if (!members(param, {"def_order", "doc_lines", "type", "optional"}, where)) return false;
				auto& order = *param.find("def_order");
				if (order.kind != Node::Int || order.i != int(j + 1)) return wrong(where + " has wrong order " + show(order));
				auto& optional = *param.find("optional");
				if (optional.kind != Node::Bool || !optional.b) return wrong(where + " is not optional"); // Absent ones are allowed always
				if (!docLines(*param.find("doc_lines"), where) || !type(*param.find("type"), due.params[j].second, where)) return false;
			}
			auto& returned = *method.find("ret_info");
			auto where = "the result of " + due.path;
			if (!members(returned, {"doc_lines", "type"}, where) || !docLines(*returned.find("doc_lines"), where) || !type(*returned.find("type"), due.result, where)) return false;
		}
		auto& described = *n.find("types");
		if (described.kind != Node::Obj) return wrong("types are not an object");
		if (described.o.size() != types.defined.size()) return wrong(mc::fmt("there are %zu types instead of %zu", described.o.size(), types.defined.size()));
		return definitions(described, 0, std::vector<bool>(types.defined.size()));
	}
	// Finds which type is which, nothing refers by name to those that are only within maps
	bool definitions(const Node& described, size_t from, std::vector<bool> used) {
		if (from == described.o.size()) return true;
		auto& [name, n] = described.o[from];
		std::string problemOfAll;
		auto known = named.find(name);
		for (int i = 0; i < int(types.defined.size()); i++) {
			if (known != named.end() ? known->second != i : names.count(i)) continue;
			if (used[i]) { // Only if it's known
				problemOfAll = "type " + name + " is described repeatedly";
				continue;
			}
			auto& due = types.defined[i].members;
			Comparison attempt = *this;
			attempt.names[i] = name;
			attempt.named[name] = i;
			bool same = n.kind == Node::Obj && n.o.size() == due.size();
			for (size_t j = 0; j < due.size() && same; j++) same = n.o[j].first == due[j].first && attempt.type(n.o[j].second, due[j].second, "member " + due[j].first + " of type " + name);
			auto usedWithThis = used;
			usedWithThis[i] = true;
			if (same && attempt.definitions(described, from + 1, usedWithThis)) return true;
			problemOfAll = attempt.problem;
		}
		return wrong(problemOfAll.size() ? problemOfAll : "type " + name + " is described wrongly or not used: " + show(n));
	}
	Comparison& operator=(const Comparison& other) { names = other.names; named = other.named; problem = other.problem; return *this; }
	Comparison(const Types& types) : types(types) {}
	Comparison(const Comparison& other) = default;
};
static void verify(IRemoteCallable& object, const Types& types, const std::vector<MethodDue>& methods, std::string_view url = "example.com", std::string_view service = "Service") {
	std::string text;
	try {
		text = describeInJsonWsp<std::string>(object, url, service);
	} catch (std::exception& e) {
		mc::fail("throws", std::string("describing throws ") + e.what());
		return;
	}
	mc::step(text);
	StrictJson json(text);
	Node n;
	MC_CHECK(json.document(n), "invalid", "the description is not valid JSON: " + mc::quoted(text, 600));
	if (mc::failed()) return;
	Comparison comparison(types);
	MC_CHECK(comparison.whole(n, methods, url, service), "description", comparison.problem + " in " + mc::quoted(text, 2000));
	if (mc::failed()) return;
	// Describing changes nothing
	MC_CHECK(describeInJsonWsp<std::string>(object, url, service) == text, "repeated", "the second description is different");
	mc::validated();
}

// Methods of every type in every place
enum Shape { Argument, Result, Both, Second, shapeCount };
template <typename T> void addMethod(DynamicRpcObject& object, std::string name, int shape, Types& types, std::vector<MethodDue>& methods, const std::string& path) {
	auto& method = methods.emplace_back();
	method.path = path + name;
	auto type = due<T>(types);
	if constexpr(!std::is_copy_constructible_v<T>) shape = Result;
	switch (shape) {
	case Argument:
		if constexpr(std::is_copy_constructible_v<T>) object.add(name, [] (T value = Bomba::name("value")) {});
		method.params = {{"value", type}};
		method.result = {TypeDue::Null};
		break;
	case Result:
		object.add(name, [] () { return T(); });
		method.result = type;
		break;
	case Both:
		if constexpr(std::is_copy_constructible_v<T>) object.add(name, [vector = std::vector<int>{4}] (IRemoteCallable*, const T& value = Bomba::name("val\"ue")) { return T(); });
		method.params = {{"val\"ue", type}};
		method.result = type;
		break;
	default:
		if constexpr(std::is_copy_constructible_v<T>) object.add(name, [] (std::string first = Bomba::name("first"), T second = Bomba::name("second"), bool third = Bomba::name("third")) { return third; });
		method.params = {{"first", {TypeDue::String}}, {"second", type}, {"third", {TypeDue::Boolean}}};
		method.result = {TypeDue::Boolean};
	}
}
using More = zoo::List<Recursive, std::vector<Recursive>, Mutual1, Mutual2, first::Item, second::Item, Item, _Item, Item2, Empty, Nested, Nested::Inner, Odd, std::map<std::string, Odd>, std::shared_ptr<Nested>, Optional<std::vector<Item2>>>;
using All = Concat<Concat<Leaves, Depth1>, Concat<Depth2, Concat<Mixed, More>>>;
template <typename... Ts> constexpr int count(zoo::List<Ts...>) { return sizeof...(Ts); }
template <typename F> void withType(int index, F&& f) { // Only those in this part
	[&]<typename... Ts, size_t... I>(zoo::List<Ts...>, std::index_sequence<I...>) {
		auto one = [&]<typename T, size_t i>() {
			if constexpr(i % parts == PART) if (int(i) == index) f.template operator()<T>();
		};
		(one.template operator()<Ts, I>(), ...);
	}(All(), std::make_index_sequence<count(All())>());
}
constexpr int mine = (count(All()) - PART + parts - 1) / parts;
static mc::Register everyType("every type in every place", count(All()) * shapeCount, [] (int u) {
	int index = u / shapeCount, shape = u % shapeCount;
	if (index % parts != PART) return;
	int depth = mc::choose(3);
	mc::describe(mc::fmt("type %d shape %d depth %d", index, shape, depth));
	withType(index, [&]<typename T>() {
		Types types;
		std::vector<MethodDue> methods;
		std::string path;
		for (int i = 0; i < depth; i++) path += mc::fmt("level%d.", i);
		DynamicRpcObject root;
		addMethod<T>(root, "method", shape, types, methods, path);
		for (int i = depth - 1; i >= 0; i--) {
			DynamicRpcObject outer;
			outer.add(mc::fmt("level%d", i), std::move(root));
			root.~DynamicRpcObject();
			new (&root) DynamicRpcObject(std::move(outer));
		}
		verify(root, types, methods);
	});
});
// Types referring to the same ones
static mc::Register pairs("pairs of types", mine * 8, [] (int u) {
	int first = u / 8, shape = u % 8 / 2;
	bool isNested = u % 2;
	int second = mc::choose(mine), shape2 = mc::thorough() ? mc::choose(shapeCount) : (first + second + shape) % shapeCount;
	mc::describe(mc::fmt("types %d %d shapes %d %d nested %d", first, second, shape, shape2, isNested));
	Types types;
	std::vector<MethodDue> methods;
	DynamicRpcObject root, inner;
	auto third = [&] {
		DynamicRpcObject deeper;
		withType((first + second) / 2 * parts + PART, [&]<typename T>() { addMethod<T>(deeper, "third", 1, types, methods, isNested ? "inner.deeper." : "deeper."); });
		return deeper;
	};
	withType(first * parts + PART, [&]<typename T>() { addMethod<T>(root, "first", shape, types, methods, ""); });
	auto& into = isNested ? inner : root;
	withType(second * parts + PART, [&]<typename T>() { addMethod<T>(into, "second", shape2, types, methods, isNested ? "inner." : ""); });
	into.add("deeper", third());
	if (isNested) root.add("inner", std::move(inner));
	root.add("last", [] () {});
	methods.push_back({"last", {}, {TypeDue::Null}});
	verify(root, types, methods);
});

#if PART == 0
// Trees of objects
struct Similar : RpcObject<Similar> {
	RpcMember<[] (Similar*, One<int32_t> a = name("a")) { return a; }> a = child<"a">;
	int aside = 0;
	RpcMember<[] () {}> aa = child<"aa">;
	RpcMember<[] (int8_t a = name("a"), std::string ab = name("ab"), std::vector<One<int32_t>> b = name("b"), Optional<bool> c = name("c"), double d = name("d"), std::map<std::string, Item> e = name("e"), Item2 f = name("f")) { return e; }> many = child<"many \"methods\"">;
	static void describe(Types& types, std::vector<MethodDue>& methods, const std::string& path) {
		auto one = due<One<int32_t>>(types);
		methods.push_back({path + "a", {{"a", one}}, one});
		methods.push_back({path + "aa", {}, {TypeDue::Null}});
		methods.push_back({path + "many \"methods\"", {{"a", {TypeDue::Number}}, {"ab", {TypeDue::String}}, {"b", due<std::vector<One<int32_t>>>(types)}, {"c", {TypeDue::Boolean}}, {"d", {TypeDue::Number}},
			{"e", due<std::map<std::string, Item>>(types)}, {"f", due<Item2>(types)}}, due<std::map<std::string, Item>>(types)});
	}
};
static const std::vector<std::string> treeNames = {"a", "b", "\"", "\xc4\x8d\\"};
static void anyTree(DynamicRpcObject& object, Types& types, std::vector<MethodDue>& methods, const std::string& path, int& left, int depth, std::vector<std::shared_ptr<void>>& kept, std::string& text) {
	int children = mc::choose(std::min(left, 3) + 1);
	left -= children;
	for (int i = 0; i < children; i++) {
		auto name = treeNames[(i + depth) % treeNames.size()];
		text += name;
		switch (mc::choose(depth > 0 ? 6 : 4)) {
		case 0:
			object.add(name, [] (int32_t a = Bomba::name("a")) { return a; });
			methods.push_back({path + name, {{"a", {TypeDue::Number}}}, {TypeDue::Number}});
			text += "() ";
			break;
		case 1:
			object.add(name, [] (Item item = Bomba::name("item")) { return second::Item(); });
			methods.push_back({path + name, {{"item", due<Item>(types)}}, due<second::Item>(types)});
			text += "(Item) ";
			break;
		case 2:
			object.add(name, Similar());
			Similar::describe(types, methods, path + name + ".");
			text += "{Similar} ";
			break;
		case 3: {
			auto similar = std::make_shared<Similar>();
			kept.push_back(similar);
			object.add(name, RpcLambdaHolder::nonOwning(*similar));
			Similar::describe(types, methods, path + name + ".");
			text += "{&Similar} ";
			break;
		}
		case 4: {
			text += "{ ";
			DynamicRpcObject inner;
			anyTree(inner, types, methods, path + name + ".", left, depth - 1, kept, text);
			object.add(name, std::move(inner));
			text += "} ";
			break;
		}
		default: {
			text += "&{ ";
			auto inner = std::make_shared<DynamicRpcObject>();
			kept.push_back(inner);
			object.add(name, RpcLambdaHolder::nonOwning(*inner));
			anyTree(*inner, types, methods, path + name + ".", left, depth - 1, kept, text);
			text += "} ";
		}
		}
	}
}
static mc::Register trees("trees of objects", 1, [] (int) {
	Types types;
	std::vector<MethodDue> methods;
	std::vector<std::shared_ptr<void>> kept;
	std::string text;
	DynamicRpcObject root;
	int left = mc::thorough() ? 5 : 4;
	anyTree(root, types, methods, "", left, 2, kept, text);
	mc::describe(text);
	verify(root, types, methods);
});
static mc::Register roots("static objects, single methods and names of services", 40, [] (int u) {
	static const std::vector<std::string> texts = {"", "name", "quote\" back\\slash", "new\nline\ttab", "\xc4\x8d\xf0\x9f\x98\x80", "http://a/b?c=d&e#f", std::string("nul\0.", 5), "\x7f\x01"};
	auto& url = texts[u % 8];
	auto& service = mc::pick(texts);
	mc::describe(mc::fmt("kind %d ", u / 8) + mc::quoted(url) + mc::quoted(service));
	Types types;
	std::vector<MethodDue> methods;
	switch (u / 8) {
	case 0: { Similar object; Similar::describe(types, methods, ""); return verify(object, types, methods, url, service); }
	case 1: {
		rpczoo::Calc object;
		auto number = TypeDue{TypeDue::Number}, text = TypeDue{TypeDue::String}, boolean = TypeDue{TypeDue::Boolean}, null = TypeDue{TypeDue::Null}, map = TypeDue{TypeDue::Map};
		auto pair = due<rpczoo::Pair>(types), list = due<std::vector<int32_t>>(types);
		methods = {{"add", {{"a", number}, {"b", number}}, number}, {"repeat", {{"text", text}, {"times", number}}, text}, {"note", {{"text", text}, {"loud", boolean}}, null}, {"number", {}, number},
			{"each", {{"list", list}, {"negate", boolean}}, list}, {"swap", {{"pair", pair}}, pair}, {"fail", {{"when", number}}, number}, {"maybe", {{"text", text}}, text},
			{"scale", {{"a", number}, {"b", number}, {"c", number}}, number}, {"names", {{"names", map}}, map}, {"not", {{"value", boolean}}, boolean}, {"stop", {}, null}, {"echo", {{"text", text}}, text}};
		return verify(object, types, methods, url, service);
	}
	case 2: { DynamicRpcObject object; return verify(object, types, methods, url, service); }
	case 3: {
		RpcLambdaHolder holder = [] (Item2 item = name("item")) { return item; };
		methods = {{"", {{"item", due<Item2>(types)}}, due<Item2>(types)}};
		return verify(*holder, types, methods, url, service);
	}
	default: { // Describing in the middle of adding, calling and being called
		DynamicRpcObject object;
		verify(object, types, methods, url, service);
		int runs = 0;
		object.add("a", [&] (Item item = name("item")) { runs++; return item; });
		methods.push_back({"a", {{"item", due<Item>(types)}}, due<Item>(types)});
		verify(object, types, methods, url, service);
		auto similar = std::make_unique<Similar>();
		object.add("b", RpcLambdaHolder::nonOwning(*similar));
		Similar::describe(types, methods, "b.");
		verify(object, types, methods, url, service);
		DummyGetResponder none;
		JsonRpcServer<> server(object, none);
		std::string out, body = "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"a\",\"params\":{\"item\":{\"global\":true}}}";
		std::string request = mc::fmt("POST / HTTP/1.1\r\nContent-Type: application/json\r\nContent-Length: %zu\r\n\r\n", body.size()) + body;
		server.getSession().respond(std::span<char>(request), [&] (std::span<const char> written) { out.append(written.data(), written.size()); });
		MC_CHECK(runs == 1 && out.find("\"global\" : true") != std::string::npos, "call", "the method can't be called after describing: " + mc::quoted(out, 300));
		One<int32_t> one;
		one.a = 5;
		MC_CHECK(similar->a(one).a == 5, "call", "the method can't be called after describing");
		return verify(object, types, methods, url, service);
	}
	}
});
#endif
