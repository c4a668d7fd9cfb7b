// Bounded exhaustive explorer of executions of real code (stateless model checking by re-execution).
//
// A harness registers scenarios. A scenario is a function that drives the code under test, taking every
// nondeterministic decision (operation, value, chunk boundary, fault, thread to run...) with choose(n).
// The explorer runs it again and again with every possible sequence of decisions. Each scenario is divided into
// units (the first decision), which are distributed to worker processes through a shared counter.
//
// A crash, sanitizer report or hang of a worker is replayed alone in a fresh process before it is reported.
#ifndef MC_HPP
#define MC_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <string_view>
#include <vector>
#include <functional>
#include <unordered_set>
#include <algorithm>
#include <map>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <errno.h>

namespace mc {

struct Scenario {
	std::string name;
	int units;
	std::function<void(int)> run;
	int deviations; // Budget for chooseDev() decisions other than 0
};

constexpr int MaxChoices = 4000;
constexpr int MaxMessage = 6000;

struct Slot { // Shared with the parent
	volatile int scenario;
	volatile int unit;
	volatile int choiceCount;
	volatile int choices[MaxChoices];
	volatile int arities[MaxChoices];
	volatile uint64_t executions;
	volatile double startedAt; // Of the current execution, 0 if none is running
	volatile int failed; // A failure in the execution was noticed by check()
	char signature[512];
	char message[MaxMessage];
};

struct Shared {
	volatile long nextUnit;
	volatile int stop;
};

inline std::vector<Scenario>& scenarios() {
	static std::vector<Scenario> made;
	return made;
}

struct Register {
	Register(std::string name, int units, std::function<void(int)> run, int deviations = 0) {
		scenarios().push_back({std::move(name), units, std::move(run), deviations});
	}
};

inline Slot* slot = nullptr;
inline Shared* shared = nullptr;
inline bool replaying = false;
inline bool isThorough = false;
inline int position = 0; // In the sequence of decisions
inline int deviationsLeft = 0;
inline std::vector<std::pair<int, int>> path; // decision, arity
inline std::vector<bool> free_; // Whether the decision costs nothing
inline uint64_t transitions = 0;
inline uint64_t checksDone = 0;
inline uint64_t nontrivial = 0;
inline uint64_t arityMismatches = 0;
inline std::unordered_set<uint64_t> states;
inline std::unordered_set<uint64_t> outcomes;
inline uint64_t executionHash = 0;
inline std::string description;
inline uint64_t tracesValidated = 0;
inline bool validatedThis = false;
inline std::map<std::string, uint64_t> counters;

inline double now() {
	timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + t.tv_nsec * 1e-9;
}

inline bool thorough() { return isThorough; }

inline uint64_t mix(uint64_t a, uint64_t b) {
	a ^= b + 0x9e3779b97f4a7c15ull + (a << 12) + (a >> 4);
	a *= 0xff51afd7ed558ccdull;
	return a ^ (a >> 33);
}
inline uint64_t hash(std::string_view s) {
	uint64_t h = 1469598103934665603ull;
	for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
	return mix(h, s.size());
}

// One of n possibilities
inline int decide(int n, bool deviation) {
	if (n <= 0) abort();
	if (position >= MaxChoices) { fprintf(stderr, "mc: too many decisions\n"); abort(); }
	int result = 0;
	if (deviation && deviationsLeft == 0)
		return 0;
	if (replaying) {
		result = position < int(path.size()) ? std::min(path[position].first, n - 1) : 0;
	} else if (position < int(path.size())) {
		if (path[position].second != n) {
			arityMismatches++;
			path.resize(position);
			free_.resize(position);
			path.push_back({0, n});
			free_.push_back(!deviation);
		}
		result = path[position].first;
	} else {
		path.push_back({0, n});
		free_.push_back(!deviation);
	}
	if (deviation && result != 0)
		deviationsLeft--;
	slot->choices[position] = result;
	slot->arities[position] = n;
	position++;
	slot->choiceCount = position;
	return result;
}
inline int choose(int n) { return n == 1 ? 0 : decide(n, false); }
// Like choose(), but any other decision than 0 is a deviation whose number in an execution is bounded
inline int chooseDev(int n) { return n == 1 ? 0 : decide(n, true); }
template <typename T>
auto& pick(T& from) { return from[choose(int(std::size(from)))]; }
template <typename T>
auto& pick(const T& from) { return from[choose(int(std::size(from)))]; }

// A transition of the explored system into a state
inline void step(uint64_t stateHash) {
	transitions++;
	if (states.size() < 2000000) states.insert(mix(stateHash, slot->scenario));
	executionHash = mix(executionHash, stateHash);
}
inline void step(std::string_view state) { step(hash(state)); }
inline void stepOnly() { transitions++; }
// The execution was compared with the reference model's prediction
inline void validated() { validatedThis = true; }
inline void count(const char* what, uint64_t n = 1) { counters[what] += n; }

inline std::string format(const char* fmt, va_list args) {
	va_list copy;
	va_copy(copy, args);
	int size = vsnprintf(nullptr, 0, fmt, copy);
	va_end(copy);
	std::string made(size, ' ');
	vsnprintf(made.data(), size + 1, fmt, args);
	return made;
}
inline std::string fmt(const char* format_, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* format_, ...) {
	va_list args;
	va_start(args, format_);
	auto made = format(format_, args);
	va_end(args);
	return made;
}
inline std::string quoted(std::string_view s, size_t limit = 600) {
	std::string r = "\"";
	for (size_t i = 0; i < s.size(); i++) {
		if (i == limit) { r += fmt("...(%zu bytes)", s.size()); break; }
		unsigned char c = s[i];
		if (c == '\r') r += "\\r"; else if (c == '\n') r += "\\n"; else if (c == '"') r += "\\\"";
		else if (c == '\\') r += "\\\\";
		else if (c < 0x20 || c >= 0x7f) r += fmt("\\x%02x", c); else r += char(c);
	}
	return r + "\"";
}

// What this execution is doing, for samples and replays
inline void describe(std::string text) { description = std::move(text); }
inline void describeMore(std::string_view text) { if (description.size() < 3000) { description += text; } }

// Notes that the property does not hold. The signature identifies what failed, independently of the exploration order
inline void fail(const std::string& signature, const std::string& message) {
	if (!slot->failed) {
		strncpy(slot->signature, signature.c_str(), sizeof(slot->signature) - 1);
		strncpy(slot->message, message.c_str(), sizeof(slot->message) - 1);
		slot->failed = 1;
	}
}
inline bool failed() { return slot->failed; }
inline bool check(bool condition, const std::string& signature, const std::string& message) {
	checksDone++;
	if (!condition) [[unlikely]]
		fail(signature, message);
	return condition;
}
#define MC_CHECK(condition, signature, message) \
	((condition) ? (void)mc::checksDone++ : mc::fail((signature), (message)))

inline void runOne(const Scenario& s, int unit) {
	position = 0;
	deviationsLeft = s.deviations + (isThorough && s.deviations ? 1 : 0);
	slot->choiceCount = 0;
	slot->failed = 0;
	memset(slot->signature, 0, sizeof(slot->signature));
	memset(slot->message, 0, sizeof(slot->message));
	executionHash = hash(s.name);
	description.clear();
	validatedThis = false;
	slot->startedAt = now();
	try {
		s.run(unit);
	} catch (std::exception& e) {
		fail("harness-exception", std::string("An unexpected exception got out: ") + e.what());
	}
	slot->startedAt = 0;
	if (!replaying && position < int(path.size())) { // Fewer decisions than before, only if it's not deterministic
		path.resize(position);
		free_.resize(position);
	}
	slot->executions = slot->executions + 1;
	outcomes.insert(executionHash);
	if (validatedThis) tracesValidated++;
}

inline bool advance(int deviationBudget) {
	(void)deviationBudget;
	while (!path.empty()) {
		int used = 0;
		for (size_t i = 0; i + 1 < path.size(); i++)
			if (!free_[i] && path[i].first != 0) used++;
		auto& last = path.back();
		bool canGo = last.first + 1 < last.second;
		if (canGo && !free_.back() && used >= deviationBudget) canGo = false;
		if (canGo) {
			last.first++;
			return true;
		}
		path.pop_back();
		free_.pop_back();
	}
	return false;
}

inline std::string outDir;

inline void writeAll(const std::string& file, const std::string& contents) {
	int fd = open(file.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
	if (fd < 0) return;
	size_t done = 0;
	while (done < contents.size()) {
		ssize_t got = write(fd, contents.data() + done, contents.size() - done);
		if (got <= 0) break;
		done += got;
	}
	close(fd);
}

inline std::string jsonString(std::string_view s) {
	std::string r = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
		else if (c < 0x20 || c >= 0x7f) r += fmt("\\u%04x", c);
		else r += char(c);
	}
	return r + "\"";
}

struct Failure {
	std::string signature, message, description, scenario;
	int scenarioIndex = 0, unit = 0;
	std::vector<int> choices;
};

inline void appendFailure(const std::string& file, const Failure& f) {
	std::string line = fmt("%d %d %zu", f.scenarioIndex, f.unit, f.choices.size());
	for (int c : f.choices) line += fmt(" %d", c);
	auto clean = [](std::string s) { std::string r; for (char c : s) r += (c == '\n' || c == '\t') ? ' ' : c; return r; };
	line += "\t" + clean(f.signature) + "\t" + clean(f.message) + "\t" + clean(f.description) + "\n";
	int fd = open(file.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
	if (fd >= 0) { if (write(fd, line.data(), line.size()) < 0) {} close(fd); }
}

constexpr size_t MaxFailuresPerWorker = 40;

inline void worker(int id, double deadline) {
	std::vector<std::pair<int, int>> units;
	for (size_t s = 0; s < scenarios().size(); s++)
		for (int u = 0; u < scenarios()[s].units; u++) units.push_back({int(s), u});
	std::vector<std::string> samples;
	std::map<int, uint64_t> perScenario;
	std::unordered_set<std::string> signatures;
	std::string failureFile = outDir + fmt("/failures.%d", id);
	uint64_t executions = 0;
	bool complete = true;
	auto flush = [&] {
		std::string text = fmt("executions %llu\ntransitions %llu\nchecks %llu\nvalidated %llu\nmismatches %llu\ncomplete %d\n",
				(unsigned long long)executions, (unsigned long long)transitions, (unsigned long long)checksDone,
				(unsigned long long)tracesValidated, (unsigned long long)arityMismatches, int(complete));
		for (auto& [s, n] : perScenario) text += fmt("scenario %d %llu\n", s, (unsigned long long)n);
		for (auto& [what, n] : counters) text += fmt("counter %llu %s\n", (unsigned long long)n, what.c_str());
		for (auto& it : samples) text += "sample " + it + "\n";
		writeAll(outDir + fmt("/stats.%d", id), text);
		std::string raw;
		for (uint64_t h : states) raw.append(reinterpret_cast<const char*>(&h), sizeof(h));
		writeAll(outDir + fmt("/states.%d", id), raw);
		raw.clear();
		for (uint64_t h : outcomes) raw.append(reinterpret_cast<const char*>(&h), sizeof(h));
		writeAll(outDir + fmt("/outcomes.%d", id), raw);
	};
	while (true) {
		long u = __sync_fetch_and_add(&shared->nextUnit, 1);
		if (u >= long(units.size())) break;
		const Scenario& s = scenarios()[units[u].first];
		slot->scenario = units[u].first;
		slot->unit = units[u].second;
		path.clear();
		free_.clear();
		int budget = s.deviations + (isThorough && s.deviations ? 1 : 0);
		uint64_t here = 0;
		while (true) {
			runOne(s, units[u].second);
			executions++;
			here++;
			perScenario[int(slot->scenario)]++;
			if ((samples.size() < 2 && here == 1) || (samples.size() < 4 && here == 57)) {
				std::string clean;
				for (char c : "[" + s.name + "] " + description) clean += (c == '\n') ? ' ' : c;
				samples.push_back(clean.substr(0, 500));
			}
			if (slot->failed && signatures.size() < MaxFailuresPerWorker && signatures.insert(slot->signature).second) {
				Failure f{slot->signature, slot->message, description, s.name, slot->scenario, slot->unit, {}};
				for (int i = 0; i < position; i++) f.choices.push_back(path[i].first);
				appendFailure(failureFile, f);
			}
			if (outcomes.size() > 2000000) outcomes.clear(); // Bounded memory; the count becomes a lower bound
			if (!advance(budget)) break;
			if (shared->stop || now() > deadline) { complete = false; break; }
		}
		if (shared->stop || now() > deadline) {
			if (shared->nextUnit < long(units.size())) complete = false;
			break;
		}
	}
	flush();
	slot->scenario = -1;
}


inline int runReplay(const char* file) {
	FILE* f = fopen(file, "r");
	if (!f) { perror(file); return 3; }
	char scenario[512] = {}, mode[32] = {};
	int unit = 0, n = 0;
	std::vector<int> choices;
	if (fscanf(f, " mode %31s scenario %511[^\n] unit %d choices %d", mode, scenario, &unit, &n) != 4) {
		fprintf(stderr, "bad replay file\n");
		return 3;
	}
	for (int i = 0; i < n; i++) {
		int c = 0;
		if (fscanf(f, "%d", &c) != 1) return 3;
		choices.push_back(c);
	}
	fclose(f);
	for (size_t s = 0; s < scenarios().size(); s++) {
		if (scenarios()[s].name != scenario) continue;
		auto& sc = scenarios()[s];
		slot->scenario = int(s);
		slot->unit = unit;
		if (std::string_view(mode) == "single") {
			replaying = true;
			for (int c : choices) { path.push_back({c, -1}); free_.push_back(true); }
			runOne(sc, unit);
		} else { // All executions of the unit until the failure
			path.clear();
			do {
				runOne(sc, unit);
			} while (!slot->failed && advance(sc.deviations + (isThorough && sc.deviations ? 1 : 0)));
		}
		printf("scenario: %s, unit %d\ndescription: %s\n", scenario, unit, description.c_str());
		if (slot->failed) {
			printf("FAILED %s\n%s\n", slot->signature, slot->message);
			fflush(stdout);
			_exit(42);
		}
		printf("held\n");
		fflush(stdout);
		_exit(0);
	}
	fprintf(stderr, "no such scenario: %s\n", scenario);
	return 3;
}

inline int mainProgram(int argc, char** argv) {
	auto map = [](size_t size) {
		void* m = mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		if (m == MAP_FAILED) { perror("mmap"); exit(3); }
		return m;
	};
	const char* tier = getenv("MC_TIER");
	isThorough = tier && std::string_view(tier) == "thorough";
	signal(SIGPIPE, SIG_IGN);
	if (argc == 3 && std::string_view(argv[1]) == "replay") {
		slot = static_cast<Slot*>(map(sizeof(Slot)));
		shared = static_cast<Shared*>(map(sizeof(Shared)));
		return runReplay(argv[2]);
	}
	if (argc == 2 && std::string_view(argv[1]) == "list") {
		for (auto& s : scenarios()) printf("%s\t%d\n", s.name.c_str(), s.units);
		return 0;
	}
	if (argc != 6 || std::string_view(argv[1]) != "run") {
		fprintf(stderr, "usage: run OUTDIR SECONDS WORKERS HANG_SECONDS | replay FILE | list\n");
		return 3;
	}
	outDir = argv[2];
	double start = now(), deadline = start + atof(argv[3]);
	int workers = atoi(argv[4]);
	double hangLimit = atof(argv[5]);
	shared = static_cast<Shared*>(map(sizeof(Shared)));
	shared->nextUnit = 0;
	struct Running { pid_t pid; Slot* slot; int id; bool hung; };
	std::vector<Running> running;
	int nextId = 0, crashes = 0;
	auto launch = [&] {
		Running r{0, static_cast<Slot*>(map(sizeof(Slot))), nextId++, false};
		r.slot->scenario = -1;
		fflush(stdout);
		pid_t pid = fork();
		if (pid < 0) { perror("fork"); exit(3); }
		if (pid == 0) {
			slot = r.slot;
			int err = open((outDir + fmt("/stderr.%d", r.id)).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
			if (err >= 0) { dup2(err, 2); dup2(err, 1); }
			worker(r.id, deadline);
			fflush(nullptr);
			_exit(0);
		}
		r.pid = pid;
		running.push_back(r);
	};
	for (int i = 0; i < workers; i++) launch();
	long total = 0;
	for (auto& s : scenarios()) total += s.units;
	while (!running.empty()) {
		usleep(20000);
		for (size_t i = 0; i < running.size(); i++) {
			auto r = running[i];
			int status = 0;
			pid_t got = waitpid(r.pid, &status, WNOHANG);
			if (got == 0) {
				double started = r.slot->startedAt;
				if (started > 0 && now() - started > hangLimit && !r.hung) {
					running[i].hung = true;
					kill(r.pid, SIGKILL);
				}
				continue;
			}
			running.erase(running.begin() + i);
			i--;
			if (got == r.pid && WIFEXITED(status) && WEXITSTATUS(status) == 0) continue;
			crashes++;
			Failure f;
			f.signature = r.hung ? "hang" : "crash";
			f.message = r.hung ? "did not finish" : WIFSIGNALED(status) ? fmt("killed by signal %d", WTERMSIG(status))
					: fmt("exited with %d", WEXITSTATUS(status));
			f.scenarioIndex = r.slot->scenario;
			f.unit = r.slot->unit;
			for (int c = 0; c < r.slot->choiceCount; c++) f.choices.push_back(int(r.slot->choices[c]));
			appendFailure(outDir + fmt("/failures.%d", r.id), f);
			if (crashes >= 12) shared->stop = 1;
			else if (shared->nextUnit < total) launch();
		}
	}
	auto distinct = [&] (const char* kind) -> size_t {
		std::vector<uint64_t> all;
		for (int i = 0; i < nextId; i++) {
			if (FILE* f = fopen((outDir + fmt("/%s.%d", kind, i)).c_str(), "rb")) {
				uint64_t block[1024];
				size_t got;
				while ((got = fread(block, sizeof(uint64_t), 1024, f)) > 0) all.insert(all.end(), block, block + got);
				fclose(f);
			}
		}
		std::sort(all.begin(), all.end());
		return std::unique(all.begin(), all.end()) - all.begin();
	};
	writeAll(outDir + "/summary", fmt("crashes %d\nunits %ld\nseconds %.2f\nstates %zu\noutcomes %zu\nleft %ld\n", crashes, total,
			now() - start, distinct("states"), distinct("outcomes"), std::max(0l, total - long(shared->nextUnit))));
	return 0;
}

} // namespace mc

#ifndef MC_NO_MAIN
int main(int argc, char** argv) { return mc::mainProgram(argc, argv); }
#endif
#endif
