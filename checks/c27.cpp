// C27: the web GUI generated from a description
#include "jsvalues.hpp"

// What's on the page
struct Button { int id; std::vector<const Node*> sections; };
struct Field { int id; std::string type; const Node* element; };
static std::string tag(const Node& n) { auto it = n.find("tag"); return it ? it->s : ""; }
static int idOf(const Node& n) { auto it = n.find("id"); return it ? int(it->i) : -1; }
static std::string textOf(const Node& n) {
	std::string r;
	if (auto it = n.find("text")) r = it->s + " ";
	if (auto it = n.find("children")) for (auto& child : it->a) r += textOf(child);
	return r;
}
static std::string plain(std::string_view text) { // Names may be written in a way more natural for people
	std::string r;
	for (char c : text) if (c > ' ' && c != '_') r += char(tolower(c));
	return r;
}
static void collect(const Node& n, std::vector<const Node*>& sections, std::vector<Button>& buttons, std::vector<Field>& fields) {
	sections.push_back(&n);
	if (tag(n) == "button") buttons.push_back({idOf(n), sections});
	if (tag(n) == "input") {
		auto type = n.find("type");
		fields.push_back({idOf(n), type ? type->s : "", &n});
	}
	if (auto it = n.find("children")) for (auto& child : it->a) collect(child, sections, buttons, fields);
	sections.pop_back();
}
static int buttonsIn(const Node& n) {
	int r = tag(n) == "button";
	if (auto it = n.find("children")) for (auto& child : it->a) r += buttonsIn(child);
	return r;
}

// Every scalar in the arguments has a field, others have nothing to be filled in
struct Leaf { std::string name; Type* type; std::vector<std::string> within; };
static void leaves(Type* type, const std::string& name, std::vector<Type*> outer, std::vector<std::string> within, std::vector<Leaf>& r) {
	switch (type->kind) {
	case Type::Array:
	case Type::Map:
		return;
	case Type::Class:
		for (auto it : outer) if (it == type) return;
		outer.push_back(type);
		within.push_back(name);
		for (auto& [memberName, member] : type->members) leaves(member, memberName, outer, within, r);
		return;
	default:
		r.push_back({name, type, within});
	}
}
static Value entered(Type* type, std::vector<Type*> outer, const std::vector<Value>& filled, size_t& used) {
	switch (type->kind) {
	case Type::Array: return array({});
	case Type::Map: return object({});
	case Type::Class: {
		for (auto it : outer) if (it == type) return null();
		outer.push_back(type);
		Value r{.kind = Value::Instance};
		r.type = type;
		for (auto& [name, member] : type->members) r.members.push_back({name, entered(member, outer, filled, used)});
		return r;
	}
	default: return filled[used++];
	}
}
struct Parameter { std::string name; Type* type; };
struct Method { std::string path; std::vector<Parameter> parameters; };

// Opens the GUI of a part of the service, then uses a method in it
static std::optional<Node> open(const std::vector<std::string>& path) {
	auto events = driver()("[\"gui\"," + pathText(path) + "]");
	bool good = events.size() == 1 && Driver::name(events[0]) == "gui";
	MC_CHECK(good, "no-gui", "making the GUI causes " + showEvents(events));
	if (!good) return std::nullopt;
	return events[0].a[1];
}
static std::optional<Node> look(int id) {
	auto events = driver()(mc::fmt("[\"show\",%d]", id));
	bool good = events.size() == 1 && Driver::name(events[0]) == "gui";
	MC_CHECK(good, "no-gui", "GUI disappeared " + showEvents(events));
	if (!good) return std::nullopt;
	return events[0].a[1];
}
struct Section { Node root; int button = -1, id = -1; std::vector<Field> fields; std::vector<Leaf> leaves; };
// Finds where methods are and checks what is there
static bool findSections(const Node& root, const std::vector<Method>& methods, size_t skipped, std::vector<Section>& sections) {
	std::vector<const Node*> stack;
	std::vector<Button> buttons;
	std::vector<Field> fields;
	collect(root, stack, buttons, fields);
	MC_CHECK(buttons.size() == methods.size(), "buttons", mc::fmt("there are %zu buttons for %zu methods", buttons.size(), methods.size()));
	if (mc::failed()) return false;
	for (size_t i = 0; i < methods.size(); i++) {
		auto& method = methods[i];
		auto& section = sections.emplace_back();
		const Node* own = nullptr; // The largest element belonging only to this method
		std::vector<const Node*> around;
		for (auto it : buttons[i].sections) {
			if (buttonsIn(*it) == 1 && (!own || methods.size() > 1 || skipped)) { if (!own) own = it; }
			else if (!own) around.push_back(it);
		}
		section.root = *own;
		section.id = idOf(*own);
		section.button = buttons[i].id;
		auto parts = split(method.path);
		auto text = textOf(*own);
		MC_CHECK(plain(text).find(plain(parts.back())) != std::string::npos, "title", "the part for method " + method.path + " has only texts " + mc::quoted(text, 300));
		if (skipped < parts.size() - 1 && around.size()) {
			auto all = textOf(*around[0]);
			for (size_t j = skipped; j + 1 < parts.size(); j++) MC_CHECK(plain(all).find(plain(parts[j])) != std::string::npos, "title", "the object " + parts[j] + " is not named in " + mc::quoted(all, 300));
		}
		for (auto& it : method.parameters) leaves(it.type, it.name, {}, {}, section.leaves);
		std::vector<Button> unused;
		collect(*own, stack, unused, section.fields);
		MC_CHECK(section.fields.size() == section.leaves.size(), "fields", mc::fmt("there are %zu fields instead of %zu for method ", section.fields.size(), section.leaves.size()) + method.path);
		if (mc::failed()) return false;
		for (size_t j = 0; j < section.leaves.size(); j++) {
			auto& leaf = section.leaves[j];
			auto& type = section.fields[j].type;
			bool fits = leaf.type->kind == Type::Boolean ? type == "checkbox" : leaf.type->kind == Type::Number ? type == "number" : type == "text" || type.empty();
			MC_CHECK(fits, "field-type", "the field for " + leaf.name + " has type " + mc::quoted(type));
			MC_CHECK(plain(text).find(plain(leaf.name)) != std::string::npos, "label", leaf.name + " is not named in " + mc::quoted(text, 300));
			for (auto& it : leaf.within) MC_CHECK(plain(text).find(plain(it)) != std::string::npos, "label", it + " is not named in " + mc::quoted(text, 300));
		}
	}
	return !mc::failed();
}
static std::string shown(const Node& result) { // How a result has to be presented
	switch (result.kind) {
	case Node::Str: return result.s;
	case Node::Bool: return result.b ? "true" : "false";
	case Node::Int: return zoo::intText(result.i);
	case Node::Float: {
		for (int precision = 1; precision < 17; precision++) {
			auto text = mc::fmt("%.*g", precision, result.d);
			if (strtod(text.c_str(), nullptr) == result.d) return text;
		}
		return "";
	}
	default: return "";
	}
}
// Fills in values and presses the button
static void use(Service& service, const Method& method, Section& section, int round) {
	std::vector<Value> filled;
	mc::describeMore(" use " + method.path);
	for (size_t i = 0; i < section.leaves.size(); i++) {
		Type* type = section.leaves[i].type;
		bool alternative = i < (round ? 1 : 3) && mc::choose(2);
		std::string what;
		switch (type->kind) {
		case Type::Number:
			filled.push_back(number(alternative ? -3 - int(i) : 40 + round + int(i)));
			what = mc::fmt("\"%d\"", int(filled.back().number));
			if (!type->integral && alternative) { filled.back().number = 1.5; what = "\"1.5\""; }
			break;
		case Type::String:
			filled.push_back(text(alternative ? "" : mc::fmt("5 te<b>\"x't%d %zu", round, i)));
			what = jsonText(filled.back().string);
			break;
		default:
			filled.push_back(boolean((round + i) % 2 == 0 ? alternative : !alternative));
			what = filled.back().boolean ? "true" : "false";
		}
		auto events = driver()(mc::fmt("[\"fill\",%d,", section.fields[i].id) + what + "]");
		mc::describeMore(" " + what);
		if (mc::failed()) return;
	}
	std::vector<Argument> arguments;
	size_t used = 0;
	for (auto& it : method.parameters) arguments.push_back({it.name, it.type, entered(it.type, {}, filled, used)});
	auto events = driver()(mc::fmt("[\"click\",%d]", section.button));
	Sent sent;
	bool asked = isSent(events, sent);
	MC_CHECK(asked, "not-sent", "pressing the button of " + method.path + " causes " + showEvents(events));
	std::string id;
	if (!asked || !rightRequest(sent, method.path, arguments, "", id)) return;
	std::string response;
	int status = 0;
	if (!exchange(service.server, sent.body, status, response)) return mc::fail("server", "the server does not respond to " + mc::quoted(sent.body));
	events = driver()(mc::fmt("[\"answer\",%d,%d,", sent.index, status) + jsonText(response) + "]");
	if (mc::failed()) return;
	mc::step(response);
	StrictJson json(response);
	Node n;
	auto result = json.document(n) ? n.find("result") : nullptr;
	if (result) {
		MC_CHECK(events.size() == 1 && Driver::name(events[0]) == "clicked", "result-lost", "the answer " + mc::quoted(response) + " causes " + showEvents(events));
		auto page = look(section.id);
		if (!page) return;
		auto due = shown(*result);
		if (due.size()) MC_CHECK(textOf(*page).find(due) != std::string::npos, "result-not-shown", "the result " + mc::quoted(due) + " of " + method.path + " is not shown in " + mc::quoted(textOf(*page), 300));
		mc::count("results shown");
	} else mc::count("errors");
	mc::validated();
}

using Types = zoo::List<int32_t, double, bool, std::string, std::vector<int32_t>, std::vector<std::vector<std::string>>, std::map<std::string, int32_t>, One<int32_t>, Two<std::string, std::vector<int32_t>>, One<One<bool>>, std::vector<One<std::string>>,
	Recursive, Optional<double>, Optional<One<int32_t>>, ::Array, ::Object, Odd, Awkward, Name, Two<std::vector<Odd>, One<std::vector<double>>>, Tree, Two<Tree, One<Tree>>, Two<Name, Name>>;
template <typename... Ts> constexpr int count(zoo::List<Ts...>) { return sizeof...(Ts); }
template <typename... Ts, typename F> void withType(zoo::List<Ts...>, int index, F&& f) {
	int i = 0;
	((i++ == index ? f.template operator()<Ts>() : void()), ...);
}
static mc::Register types("arguments of all types", count(Types()) * 4, [] (int u) {
	withType(Types(), u / 4, [&]<typename T>() {
		DynamicRpcObject root;
		std::vector<Method> methods;
		switch (u % 4) {
		case 0:
			root.add("method", [] (T value = Bomba::name("value")) { return true; });
			methods.push_back({"method", {{"value", of<T>()}}});
			break;
		case 1:
			root.add("getIt_now", [] (bool before = Bomba::name("beforeThat"), T value = Bomba::name("the_value"), int32_t after = Bomba::name("after")) { return after; });
			methods.push_back({"getIt_now", {{"beforeThat", of<bool>()}, {"the_value", of<T>()}, {"after", of<int32_t>()}}});
			break;
		case 2:
			root.add("simple", [] () { return 3.5; });
			methods.push_back({"simple", {}});
			root.add("method", [] (T value = Bomba::name("x y"), T value2 = Bomba::name("'\"`")) { return std::string("<i>it"); });
			methods.push_back({"method", {{"x y", of<T>()}, {"'\"`", of<T>()}}});
			break;
		default:
			root.add("method", [] (T value = Bomba::name("value")) { return value; });
			methods.push_back({"method", {{"value", of<T>()}}});
		}
		Service service(root);
		for (auto& it : methods) for (auto& param : it.parameters) service.resolveParam(it.path, param.name, param.type);
		mc::describe(mc::fmt("type %d shape %d", u / 4, u % 4));
		if (!service.load()) return;
		bool single = mc::choose(2);
		std::vector<Section> sections;
		if (single) methods = {methods.back()};
		auto page = open(single ? split(methods.back().path) : std::vector<std::string>{});
		if (!page || !findSections(*page, methods, 0, sections)) return;
		use(service, methods.back(), sections.back(), 0);
		if (!mc::failed()) use(service, methods.back(), sections.back(), 1);
	});
});
static const std::vector<std::string> treeNames = {"first", "getURL", "set_it", "gui", "XMLThing", "a<b&c"};
static void addMethod(DynamicRpcObject& object, const std::string& prefix, const std::string& name, int kind, std::vector<Method>& methods) {
	switch (kind) {
	case 0:
		object.add(name, [] (std::string text = Bomba::name("text")) { return text + "!"; });
		methods.push_back({prefix + name, {{"text", of<std::string>()}}});
		break;
	case 1:
		object.add(name, [] (bool fails = Bomba::name("fails"), double number = Bomba::name("number")) { if (fails) throw std::runtime_error("failed"); return number * 2; });
		methods.push_back({prefix + name, {{"fails", of<bool>()}, {"number", of<double>()}}});
		break;
	default:
		object.add(name, [] () {});
		methods.push_back({prefix + name, {}});
	}
}
static void addTree(DynamicRpcObject& object, const std::string& prefix, int& left, int depth, std::vector<Method>& methods, std::vector<std::string>& objects, std::string& text, int level = 0) {
	int children = level == 0 ? 1 + mc::choose(std::min(left, 3)) : mc::choose(std::min(left, 3) + 1);
	left -= children;
	int start = mc::choose(2) * 3;
	for (int i = 0; i < children; i++) {
		auto name = treeNames[(start + i + level) % treeNames.size()];
		int kind = mc::choose(depth > 0 ? 4 : 3);
		text += name + (kind < 3 ? mc::fmt("(%d) ", kind) : "{ ");
		if (kind < 3) addMethod(object, prefix, name, kind, methods);
		else {
			DynamicRpcObject inner;
			objects.push_back(prefix + name);
			addTree(inner, prefix + name + ".", left, depth - 1, methods, objects, text, level + 1);
			object.add(name, std::move(inner));
			text += "} ";
		}
	}
}
static mc::Register trees("trees of objects", 16, [] (int u) {
	DynamicRpcObject root;
	std::vector<Method> methods;
	std::vector<std::string> objects;
	std::string text;
	int left = mc::thorough() ? 4 : 3;
	if (mc::choose(16) != u) return;
	addTree(root, "", left, 2, methods, objects, text);
	mc::describe(text);
	Service service(root);
	if (!service.load()) return;
	// Whole or only a part
	std::vector<std::string> places = {""};
	for (auto& it : objects) places.push_back(it);
	std::erase_if(places, [&] (auto& place) { // Its GUI is hidden by a part of the service
		std::string own = place.empty() ? "gui" : place + ".gui";
		for (auto& it : methods) if (it.path == own || it.path.starts_with(own + ".")) return true;
		for (auto& it : methods) if (place.size() && it.path.starts_with(place + ".")) return false;
		return !place.empty(); // Without methods, it is not described at all
	});
	if (places.empty()) return;
	auto place = mc::pick(places);
	std::vector<Method> present;
	for (auto& it : methods) if (place.empty() || it.path.starts_with(place + ".")) present.push_back(it);
	auto path = place.empty() ? std::vector<std::string>() : split(place);
	mc::describeMore("in " + place);
	auto page = open(path);
	if (!page) return;
	std::vector<Section> sections;
	if (!findSections(*page, present, path.size(), sections)) return;
	if (present.empty()) return mc::validated();
	// Another one does not interfere
	std::optional<Node> another;
	if (mc::choose(2)) {
		another = open(path);
		if (!another) return;
		std::vector<Section> other;
		if (!findSections(*another, present, path.size(), other)) return;
		for (auto& it : other) for (size_t i = 0; i < it.fields.size(); i++) driver()(mc::fmt("[\"fill\",%d,%s]", it.fields[i].id, it.leaves[i].type->kind == Type::Boolean ? "true" : "\"999\""));
	}
	int first = mc::choose(int(present.size())), second = mc::choose(int(present.size()));
	use(service, present[first], sections[first], 0);
	if (!mc::failed()) use(service, present[second], sections[second], 1);
});
