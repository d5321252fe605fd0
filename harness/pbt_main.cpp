// Runner: runs batches of cases in a forked child (so that sanitizer reports, crashes, hangs and
// exceptions all become failures of a specific case), shrinks failures, writes replay files.
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include "pbt.hpp"

namespace pbt {
enum { MAX_CLASSES = 64 };
struct Shared {
	volatile uint64_t current;  // case being run
	volatile uint64_t done, nontrivial;
	volatile uint64_t nchoices;
	volatile int failed;
	volatile int stop;
	char sig[128];
	char msg[4096];
	char desc[16384];
	char class_name[MAX_CLASSES][96];
	uint64_t class_count[MAX_CLASSES];
	volatile uint64_t nhash;
	int nsamples;
	char sample[8][3000];
	uint64_t choices[Gen::MAX_CHOICES];
};
Shared *shared = nullptr;
static uint64_t *hashes = nullptr;
static size_t max_hashes = 0;

void Gen::record(uint64_t v) {
	hash = (hash ^ v) * 1099511628211ULL;
	hash ^= hash >> 29;
	if (shared && count < MAX_CHOICES) {
		shared->choices[count] = v;
		shared->nchoices       = count + 1;
	}
	++count;
	if (count > 4 * MAX_CHOICES)
		throw std::logic_error("pbt: generator used too many choices");
}
void Ctx::cls(const char *name) {
	if (!shared)
		return;
	for (int i = 0; i != MAX_CLASSES; ++i) {
		if (!shared->class_name[i][0]) {
			strncpy(shared->class_name[i], name, sizeof(shared->class_name[i]) - 1);
		}
		if (strcmp(shared->class_name[i], name) == 0) {
			if (!(classes & (uint64_t(1) << i))) {
				classes |= uint64_t(1) << i;
				shared->class_count[i] += 1;
			}
			return;
		}
	}
}
}  // namespace pbt
using namespace pbt;

static void put(char *dst, size_t n, const std::string &s) {
	size_t k = std::min(n - 1, s.size());
	memcpy(dst, s.data(), k);
	dst[k] = 0;
}
void Ctx::flush() {
	if (shared)
		put(shared->desc, sizeof(shared->desc), log.str());
}

void pbt::fatal(const std::string &sig, const std::string &msg) {
	put(shared->sig, sizeof(shared->sig), sig);
	put(shared->msg, sizeof(shared->msg), msg);
	shared->failed = 1;
#ifdef PBT_LIBFUZZER
	abort();
#endif
	_exit(1);
}

__attribute__((weak)) std::string prop_probe(const std::string &) { return "unknown probe"; }
// hook for harnesses that have global state to reset before each case
__attribute__((weak)) void prop_reset() {}

#ifdef PBT_LIBFUZZER
extern "C" int LLVMFuzzerInitialize(int *, char ***) {
	void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	shared  = static_cast<Shared *>(p);
	return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
	Gen g(data, size, 60);
	Ctx c;
	shared->nchoices = 0;
	prop_reset();
	try {
		prop_case(g, c);
	} catch (const Failure &f) {
		std::cerr << "PBT-FAIL " << f.sig << ": " << f.msg << std::endl;
		abort();
	}
	return 0;
}
#else
#ifdef PBT_TO_CHOICES
#endif

static double now_s() {
	timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return ts.tv_sec + ts.tv_nsec * 1e-9;
}
static int cpu_limit_s = 30, wall_limit_s = 240;
static std::string stop_file, err_file;
static bool stop_requested() { return !stop_file.empty() && access(stop_file.c_str(), F_OK) == 0; }
static void arm(bool on) {
	itimerval a{}, b{};
	if (on) {
		a.it_value.tv_sec = cpu_limit_s;
		b.it_value.tv_sec = wall_limit_s;
	}
	setitimer(ITIMER_PROF, &a, nullptr);
	setitimer(ITIMER_REAL, &b, nullptr);
}
namespace pbt {
struct Runner {
	// returns true if passed
	static bool run_one(Gen &g, Ctx &c) {
		shared->nchoices = 0;
		shared->failed   = 0;
		shared->sig[0] = shared->msg[0] = shared->desc[0] = 0;
		bool ok = true;
		try {
			prop_reset();
			prop_case(g, c);
		} catch (const Failure &f) {
			put(shared->sig, sizeof(shared->sig), f.sig);
			put(shared->msg, sizeof(shared->msg), f.msg);
			ok = false;
		} catch (const std::exception &e) {
			put(shared->sig, sizeof(shared->sig), "unexpected-exception");
			put(shared->msg, sizeof(shared->msg), std::string("exception escaped: ") + e.what());
			ok = false;
		}
		if (c.verbose)
			put(shared->desc, sizeof(shared->desc), c.log.str());
		if (!ok)
			shared->failed = 1;
		return ok;
	}
};
}  // namespace pbt

static uint64_t case_seed(uint64_t seed, uint64_t k) {
	uint64_t h = Gen::mix(seed * 0x100000001B3ULL + 77);
	for (const char *p = PROP_ID; *p; ++p)
		h = Gen::mix(h ^ uint64_t(*p));
	return Gen::mix(h ^ (k * 0x9E3779B97F4A7C15ULL));
}
static unsigned case_size(uint64_t k) { return unsigned(k % 101); }

// run one choice vector in a child; 0 = pass, 1 = fail (shared has details)
static int run_child(const std::vector<uint64_t> &choices, unsigned size, bool verbose, bool quiet) {
	pid_t p = fork();
	if (p == 0) {
		if (quiet) {
			int fd = open(err_file.empty() ? "/dev/null" : err_file.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
			dup2(fd, 2);
			dup2(fd, 1);
		}
		arm(true);
		Gen g(choices, size);
		Ctx c;
		c.verbose = verbose;
		_exit(Runner::run_one(g, c) ? 0 : 1);
	}
	int st = 0;
	while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
	}
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
		return 0;
	if (!shared->failed) {
		std::string what = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGPROF || WTERMSIG(st) == SIGALRM ? "hang" : "crash") : "crash";
		put(shared->sig, sizeof(shared->sig), what);
		put(shared->msg, sizeof(shared->msg),
		    WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) : "sanitizer/abnormal exit " + std::to_string(WEXITSTATUS(st)));
	}
	return 1;
}

static std::vector<uint64_t> take_choices() {
	return std::vector<uint64_t>(shared->choices, shared->choices + std::min<uint64_t>(uint64_t(shared->nchoices), uint64_t(Gen::MAX_CHOICES)));
}

static std::vector<uint64_t> shrink(std::vector<uint64_t> best, unsigned size, const std::string &sig, double budget_s, int max_runs) {
	double t0 = now_s();
	int runs  = 0;
	auto attempt = [&](std::vector<uint64_t> cand) {
		if (cand == best || now_s() - t0 > budget_s || runs >= max_runs)
			return false;
		if (++runs % 16 == 0 && stop_requested())
			max_runs = 0;
		if (run_child(cand, size, false, true) == 0 || sig != shared->sig)
			return false;
		auto used = sig == "crash" || sig == "hang" ? cand : take_choices();
		if (used.size() > cand.size())
			used = cand;
		best = used.size() <= cand.size() ? used : cand;
		return true;
	};
	bool progress = true;
	while (progress && now_s() - t0 < budget_s && runs < max_runs) {
		progress = false;
		for (size_t w = best.size(); w >= 1; w = w / 2) {  // delete blocks
			for (size_t i = 0; i + w <= best.size();) {
				auto cand = best;
				cand.erase(cand.begin() + i, cand.begin() + i + w);
				if (attempt(cand))
					progress = true;
				else
					i += w;
				if (now_s() - t0 > budget_s || runs >= max_runs)
					return best;
			}
		}
		for (size_t i = 0; i < best.size(); ++i) {  // lower values
			if (best[i] == 0)
				continue;
			auto cand = best;
			cand[i]   = 0;
			if (attempt(cand)) {
				progress = true;
				continue;
			}
			uint64_t lo = 0, hi = best[i];
			while (hi - lo > 1 && now_s() - t0 < budget_s && runs < max_runs) {
				uint64_t mid = lo + (hi - lo) / 2;
				if (i >= best.size())
					break;
				cand    = best;
				cand[i] = mid;
				if (attempt(cand)) {
					progress = true;
					hi       = mid;
				} else
					lo = mid;
			}
		}
	}
	return best;
}

static std::string jesc(const std::string &s) {
	std::string r;
	char b[8];
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') {
			r += '\\';
			r += char(c);
		} else if (c == '\n')
			r += "\\n";
		else if (c < 32 || c >= 127) {
			snprintf(b, sizeof(b), "\\u%04x", c);
			r += b;
		} else
			r += char(c);
	}
	return r;
}

int main(int argc, char **argv) {
	std::map<std::string, std::string> a;
	for (int i = 1; i + 1 < argc; i += 2)
		a[argv[i]] = argv[i + 1];
	auto num = [&](const char *k, uint64_t d) { return a.count(k) ? strtoull(a[k].c_str(), nullptr, 10) : d; };
	shared = static_cast<Shared *>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
	cpu_limit_s  = int(num("--cpu-limit", 30));
	wall_limit_s = int(num("--wall-limit", 240));
	if (a.count("--rule")) {
		std::cout << PROP_RULE << std::endl;
		return 0;
	}
	if (a.count("--probe")) {
		pid_t p = fork();
		if (p == 0) {
			arm(true);
			prop_reset();
			std::string r;
			try {
				r = prop_probe(a["--probe"]);
			} catch (const Failure &f) {
				r = f.sig + ": " + f.msg;
			} catch (const std::exception &e) {
				r = std::string("exception escaped: ") + e.what();
			}
			put(shared->msg, sizeof(shared->msg), r);
			_exit(r.empty() ? 0 : 1);
		}
		int st = 0;
		waitpid(p, &st, 0);
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
			return 0;
		if (!shared->msg[0])
			put(shared->msg, sizeof(shared->msg), "crash");
		std::cout << shared->msg << std::endl;
		return 1;
	}
	if (a.count("--replay")) {
		std::ifstream f(a["--replay"]);
		std::string line;
		std::vector<uint64_t> ch;
		unsigned size = 60;
		while (std::getline(f, line)) {
			if (line.compare(0, 8, "choices:") == 0) {
				std::istringstream s(line.substr(8));
				uint64_t v;
				while (s >> v)
					ch.push_back(v);
			}
			if (line.compare(0, 5, "size:") == 0)
				size = unsigned(atoi(line.c_str() + 5));
		}
		int rc = run_child(ch, size, true, a.count("--quiet") != 0);
		std::cout << (rc ? "FAIL " : "PASS ") << shared->sig << ": " << shared->msg << "\n";
		if (!a.count("--quiet"))
			std::cout << shared->desc << std::endl;
		return rc;
	}
	uint64_t seed = num("--seed", 1), start = num("--start", 0), stride = num("--stride", 1), cases = num("--cases", 1000);
	double wall      = double(num("--wall", 600));
	std::string out  = a["--out"];
	std::string rdir = a["--replay-dir"];
	double t0        = now_s();
	stop_file        = a["--stop-file"];
	if (a.count("--bytes")) {  // convert a libFuzzer artifact into a failing choice vector
		std::ifstream f(a["--bytes"], std::ios::binary);
		std::string d((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
		pid_t p = fork();
		if (p == 0) {
			arm(true);
			Gen g(reinterpret_cast<const uint8_t *>(d.data()), d.size(), 60);
			Ctx c;
			_exit(Runner::run_one(g, c) ? 0 : 1);
		}
		int st = 0;
		waitpid(p, &st, 0);
		auto ch = take_choices();
		if (run_child(ch, 60, false, true) == 0)
			return 0;
		std::string sig = shared->sig;
		auto best       = shrink(ch, 60, sig, 60, 3000);
		run_child(best, 60, true, true);
		std::string path = rdir + "/" + PROP_ID + "-fuzz-" + std::to_string(Gen::mix(std::hash<std::string>()(d)) % 1000000) + ".replay";
		std::ofstream o(path);
		o << "property: " << PROP_ID << "\nsig: " << sig << "\nmsg: " << Ctx::esc(shared->msg, 3000) << "\nsize: 60\nchoices:";
		for (auto v : best)
			o << " " << v;
		o << "\n--- case ---\n" << shared->desc << "\n";
		std::cout << path << std::endl;
		return 1;
	}
	max_hashes = (cases / stride) + 2;
	hashes     = static_cast<uint64_t *>(
        mmap(nullptr, max_hashes * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
	uint64_t next = start;
	bool failed = false;
	uint64_t batch = num("--batch", 0);
	uint64_t fail_case = 0;
	int unrepro = 0;
	std::string unrepro_msg;
	while (next < cases && !failed && unrepro < 20 && now_s() - t0 < wall) {
		shared->current = next;
		shared->failed  = 0;
		uint64_t lim    = batch ? std::min(cases, next + batch * stride) : cases;
		pid_t p         = fork();
		if (p == 0) {
			for (uint64_t k = next; k < lim; k += stride) {
				shared->current = k;
				arm(true);
				Gen g(case_seed(seed, k), case_size(k));
				g.set_index(k);
				Ctx c;
				c.verbose = shared->nsamples < 6 && (shared->nsamples == 0 || k % 37 == 0 || k > cases / 2);
				if (!Runner::run_one(g, c))
					_exit(1);
				shared->done += 1;
				if (c.is_nontrivial()) {
					shared->nontrivial += 1;
					if (shared->nhash < max_hashes)
						hashes[shared->nhash++] = g.content_hash();
					if (c.verbose) {
						std::string d = c.log.str();
						if (d.size() > 700)
							d = d.substr(0, 700) + " ...";
						put(shared->sample[shared->nsamples], sizeof(shared->sample[0]), d);
						shared->nsamples += 1;
					}
				}
				if ((k / stride) % 64 == 0 && (now_s() - t0 > wall || stop_requested())) {
					shared->stop = 1;
					break;
				}
			}
			arm(false);
			_exit(0);
		}
		int st = 0;
		while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
		}
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
			if (shared->stop)
				break;
			next = shared->current + stride;
			continue;
		}
		fail_case = shared->current;
		// a case has to fail on its own, in a fresh process, to count
		auto ch  = take_choices();
		auto msg = std::string(shared->failed ? std::string(shared->sig) + ": " + shared->msg : "abnormal exit");
		if (run_child(ch, case_size(fail_case), true, true) == 0) {
			++unrepro;
			unrepro_msg = "case " + std::to_string(fail_case) + " " + msg;
			next        = fail_case + stride;
			continue;
		}
		failed = true;
	}
	std::string replay_path, fsig, fmsg, fdesc;
	bool confirmed = false;
	if (failed) {
		auto ch        = take_choices();
		unsigned size  = case_size(fail_case);
		int rc         = run_child(ch, size, true, true);
		fsig           = shared->sig;
		fmsg           = shared->msg;
		if (rc) {
			auto best = shrink(ch, size, fsig, double(num("--shrink-s", 45)), int(num("--shrink-runs", 3000)));
			int repro = 0;
			err_file  = out + ".stderr";
			for (int i = 0; i != 3; ++i)
				if (run_child(best, size, true, true))
					++repro;
			confirmed = repro == 3;
			if (!confirmed) {  // fall back to the unshrunk case
				best  = ch;
				repro = 0;
				for (int i = 0; i != 3; ++i)
					if (run_child(best, size, true, true))
						++repro;
				confirmed = repro == 3;
			}
			if (confirmed) {
				fsig = shared->sig;
				fmsg = shared->msg;
			}
			fdesc       = shared->desc;
			replay_path = rdir + "/" + PROP_ID + "-s" + std::to_string(seed) + "-c" + std::to_string(fail_case) + ".replay";
			std::ofstream o(replay_path);
			o << "property: " << PROP_ID << "\nseed: " << seed << " case: " << fail_case << "\nsig: " << fsig << "\nmsg: " << Ctx::esc(fmsg, 3000)
			  << "\nsize: " << size << "\nchoices:";
			for (auto v : best)
				o << " " << v;
			o << "\n--- case ---\n" << fdesc << "\n--- stderr ---\n";
			std::ifstream e(err_file);
			std::string l;
			for (int i = 0; i != 60 && std::getline(e, l); ++i) {
				o << l << "\n";
				if (fmsg.find(" | ") == std::string::npos && (l.find("runtime error") != std::string::npos || l.find("ERROR: ") != std::string::npos || l.find("WARNING: ") != std::string::npos))
					fmsg += " | " + l;
			}
		} else {
			fsig = "unreproduced";
		}
	}
	std::ofstream o(out);
	o << "{\"evaluations\":" << shared->done + (failed ? 1 : 0) << ",\"unreproduced\":" << unrepro << ",\"unreproduced_msg\":\"" << jesc(unrepro_msg) << "\"" << ",\"nontrivial\":" << shared->nontrivial << ",\"stopped_early\":"
	  << (shared->stop ? "true" : "false") << ",\"classes\":{";
	bool first = true;
	for (int i = 0; i != MAX_CLASSES && shared->class_name[i][0]; ++i) {
		o << (first ? "" : ",") << "\"" << jesc(shared->class_name[i]) << "\":" << shared->class_count[i];
		first = false;
	}
	o << "},\"samples\":[";
	for (int i = 0; i != shared->nsamples; ++i)
		o << (i ? "," : "") << "\"" << jesc(shared->sample[i]) << "\"";
	o << "],\"failed\":" << (failed ? "true" : "false") << ",\"confirmed\":" << (confirmed ? "true" : "false") << ",\"fail_case\":" << fail_case
	  << ",\"sig\":\"" << jesc(fsig) << "\",\"msg\":\"" << jesc(fmsg) << "\",\"replay\":\"" << jesc(replay_path) << "\",\"wall\":" << now_s() - t0 << "}\n";
	o.close();
	std::ofstream h(out + ".hash", std::ios::binary);
	h.write(reinterpret_cast<const char *>(hashes), std::streamsize(shared->nhash * 8));
	return failed ? 1 : 0;
}
#endif
