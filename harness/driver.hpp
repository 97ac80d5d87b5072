// main() of every harness binary.
//   harness --prop C01 --tier quick --jobs 8 --budget 200 --scratch DIR --out result.json
//   harness --prop C01 --tier quick --replay FILE       (FILE written by a failing run)
#pragma once
#include "engine.hpp"
#include "hooks.hpp"
#include <cctype>
#include <fstream>
#include <sstream>

namespace mc {
struct Plan {
	std::vector<Model> models;
	std::set<std::string> mask; // oracle tags deciding the property
};
}
//! defined by each harness: what to explore for a property
mc::Plan plan(const std::string & prop, bool thorough);

namespace mc {
inline std::string js(const std::string & s) {
	std::string r{"\""};
	for(unsigned char c : s) {
		if(c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
		else if(c == '\n') r += "\\n";
		else if(c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += static_cast<char>(c);
	}
	return r + "\"";
}

inline int harness_main(int argc, char ** argv) {
	std::string prop, tier{"quick"}, scratch{"."}, out, replay, only;
	Options opt;
	double budget{0};
	for(int i{1}; i + 1 < argc; i += 2) {
		const std::string k{argv[i]}, v{argv[i + 1]};
		if(k == "--prop") prop = v;
		else if(k == "--tier") tier = v;
		else if(k == "--jobs") opt.jobs = std::stoi(v);
		else if(k == "--budget") budget = std::stod(v);
		else if(k == "--scratch") scratch = v;
		else if(k == "--out") out = v;
		else if(k == "--replay") replay = v;
		else if(k == "--only") only = v;
	}
	if(opt.jobs > 64) opt.jobs = 64;
	opt.dir = scratch;
	auto p{plan(prop, tier == "thorough")};
	mask = p.mask;
	if(!replay.empty()) {
		std::ifstream f{replay};
		std::string model;
		History h;
		for(std::string l; std::getline(f, l);) {
			if(l.rfind("model: ", 0) == 0) model = l.substr(7);
			else if(l.rfind("choices:", 0) == 0) {
				Steps s;
				std::istringstream in{l.substr(8)};
				for(int x; in >> x;) s.push_back(static_cast<std::uint16_t>(x));
				h.push_back(s);
			}
		}
		for(auto & m : p.models)
			if(m.name == model) {
				std::vector<std::string> lines;
				narrative = &lines;
				Chooser ch;
				const History pre(h.begin(), h.end() - 1);
				run_history(m, pre, h.back(), ch, true);
				for(auto & l : lines) std::printf("%s\n", l.c_str());
				std::printf("no violation\n");
				return 0;
			}
		std::fprintf(stderr, "unknown model %s\n", model.c_str());
		return 2;
	}
	const auto t0{now()};
	std::ostringstream o;
	o << "{\"prop\": " << js(prop) << ", \"models\": [";
	bool first{true};
	std::size_t left{p.models.size()};
	bool violated{false};
	for(auto & m : p.models) {
		if(!only.empty() && m.name.find(only) == std::string::npos) { --left; continue; }
		if(budget) { //a model may use its share of what is left, at least
			const auto remaining{budget - (now() - t0)};
			opt.deadline = now() + std::max(2.0, remaining / static_cast<double>(left) * 2);
			if(opt.deadline > t0 + budget) opt.deadline = std::max(now() + 2, t0 + budget);
		}
		--left;
		auto r{explore(m, opt)};
		o << (first ? "\n " : ",\n ") << "{\"model\": " << js(r.model) << ", \"states\": " << r.states << ", \"transitions\": " << r.transitions << ", \"executions\": " << r.executions
		  << ", \"faults\": " << r.faults << ", \"foreign\": " << r.foreign << ", \"depth\": " << r.depth << ", \"complete\": " << (r.complete ? "true" : "false") << ", \"cap\": " << js(r.cap) << ", \"wall\": " << r.wall << ", \"labels\": {";
		first = false;
		bool f2{true};
		for(auto & l : r.labels) { o << (f2 ? "" : ", ") << js(l.first) << ": " << l.second; f2 = false; }
		o << "}, \"samples\": [";
		f2 = true;
		for(auto & s : r.samples) { o << (f2 ? "" : ", ") << js(s); f2 = false; }
		o << "]";
		if(r.failure.present) {
			violated = true;
			auto & f{r.failure};
			o << ", \"failure\": {\"kind\": " << js(f.kind) << ", \"tag\": " << js(f.tag) << ", \"msg\": " << js(f.msg) << ", \"label\": " << js(f.label) << ", \"log\": " << js(f.log) << ", \"choices\": [";
			f2 = true;
			for(auto & s : f.history) {
				o << (f2 ? "" : ", ") << "\"";
				for(auto c : s) o << c << " ";
				o << "\"";
				f2 = false;
			}
			o << "]}";
		}
		o << "}";
		if(violated) break;
	}
	o << "\n]}\n";
	if(out.empty()) std::fputs(o.str().c_str(), stdout);
	else {
		std::ofstream f{out};
		f << o.str();
	}
	return violated ? 1 : 0;
}
}

int main(int argc, char ** argv) { return mc::harness_main(argc, argv); }
