// Independent reader and exhaustive interpreter for compiled unweighted (and weighted) VFST files.
#pragma once
#include <cstdint>
#include <fstream>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include "uni.hpp"

namespace vfst {
using uni::W;

struct Arc { uint32_t in, out, target; int16_t weight; };
static const uint32_t FINAL16 = 0xFFFF, FINAL32 = 0xFFFFFFFF;

class Fst {
public:
	bool ok = false, weighted = false;
	std::vector<std::string> syms;
	uint32_t firstNormal = 0, firstMulti = 0;
	std::map<wchar_t, uint32_t> bySym;
	struct Flag { char op; std::string feature, value; uint16_t fid = 0, vid = 0; };
	std::map<std::string, uint16_t> featureIds, valueIds;
	std::vector<Flag> flags;
	std::string data;
	size_t base = 0;

	explicit Fst(const std::string & path) {
		std::ifstream f(path, std::ios::binary);
		std::stringstream ss; ss << f.rdbuf(); data = ss.str();
		if (data.size() < 18) return;
		if (u32(0) != 0x00013A6E || u32(4) != 0x000351FA) return; // native order only
		weighted = data[8] == 1;
		uint32_t n = u16(16);
		size_t p = 18;
		for (uint32_t i = 0; i < n; i++) {
			std::string s(data.c_str() + p);
			syms.push_back(s);
			p += s.size() + 1;
			flags.push_back(Flag());
			if (i == 0) continue;
			if (!firstNormal) {
				if (s[0] == '@') {
					Flag fl; fl.op = s[1];
					std::string fv = s.substr(3, s.size() - 4);
					size_t dot = fv.find('.');
					fl.feature = fv.substr(0, dot);
					fl.value = dot == std::string::npos ? "@" : fv.substr(dot + 1);
					fl.fid = featureIds.emplace(fl.feature, (uint16_t) featureIds.size()).first->second;
					fl.vid = fl.value.empty() ? 0 : valueIds.emplace(fl.value, (uint16_t) (valueIds.size() + 1)).first->second;
					flags[i] = fl;
				}
				else firstNormal = i;
			}
			else if (!firstMulti && s[0] == '[') firstMulti = i;
			if (firstNormal && !firstMulti) bySym[uni::dec(s)[0]] = i;
		}
		size_t cell = weighted ? 16 : 8;
		if (p % cell) p += cell - p % cell;
		base = p;
		wsyms.resize(n);
		for (uint32_t i = 1; i < n; i++) wsyms[i] = uni::dec(syms[i]);
		ok = true;
	}

	std::vector<Arc> arcs(uint32_t st) const {
		std::vector<Arc> r;
		size_t cell = weighted ? 16 : 8;
		auto at = [&](uint32_t k) {
			Arc a; size_t o = base + (size_t) k * cell;
			if (weighted) { a.in = u32(o); a.out = u32(o + 4); a.target = u32(o + 8); a.weight = (int16_t) u16(o + 12); }
			else { a.in = u16(o); a.out = u16(o + 2); a.target = u32(o + 4) & 0xFFFFFF; a.weight = 0; }
			return a;
		};
		uint32_t more = weighted ? (unsigned char) data[base + (size_t) st * cell + 14] : (u32(base + (size_t) st * cell + 4) >> 24);
		r.push_back(at(st));
		if (more == 255) {
			more = u32(base + (size_t) (st + 1) * cell) + 1;
			for (uint32_t k = 2; k <= more; k++) r.push_back(at(st + k));
		}
		else for (uint32_t k = 1; k <= more; k++) r.push_back(at(st + k));
		return r;
	}

	// current values of the features (0 = neutral)
	typedef std::vector<uint16_t> Flags;
	uint16_t featureCount() const { return (uint16_t) featureIds.size(); }
	// applies a flag diacritic; false if it blocks the path
	bool applyFlag(uint32_t sym, Flags & s) const {
		const Flag & f = flags[sym];
		uint16_t & cur = s[f.fid];
		switch (f.op) {
			case 'P': cur = f.vid; return true;
			case 'C': cur = 0; return true;
			case 'U': if (!cur) { cur = f.vid; return true; } return cur == f.vid;
			case 'R': return f.value == "@" ? cur != 0 : cur == f.vid;
			case 'D': return f.value == "@" ? cur == 0 : cur != f.vid;
		}
		return false;
	}

	struct Result { std::vector<W> outputs; bool limited = false; uint64_t steps = 0; };
	// all outputs for the input in the order of the transitions; 'limited' if the search
	// comes near the library's documented work limits (the caller then skips the comparison)
	Result lookup(const W & input, size_t maxOutputs) const {
		Result r;
		std::vector<uint32_t> in;
		for (wchar_t c : input) { auto it = bySym.find(c); if (it == bySym.end()) return r; in.push_back(it->second); }
		uint64_t sinceOutput = 0;
		std::vector<uint32_t> out;
		Flags fl(featureCount(), 0);
		std::function<void(uint32_t, size_t, int)> go = [&](uint32_t st, size_t pos, int depth) {
			if (depth > 1500) { r.limited = true; return; }
			for (const Arc & a : arcs(st)) {
				if (a.in == FINAL16) {
					if (pos == in.size()) {
						W o;
						for (uint32_t s : out) o += wsyms[s];
						if (o.size() > 1900) { r.limited = true; return; }
						r.outputs.push_back(o);
						sinceOutput = 0;
						if (r.outputs.size() >= maxOutputs) return;
					}
					continue;
				}
				bool consume = a.in >= firstNormal;
				uint16_t old = 0, fid = 0;
				bool isFlag = false;
				if (consume) { if (pos >= in.size() || in[pos] != a.in) continue; }
				else if (a.in != 0) {
					isFlag = true;
					fid = flags[a.in].fid; old = fl[fid];
					if (!applyFlag(a.in, fl)) continue;
				}
				r.steps += 2;
				sinceOutput += 2;
				if (sinceOutput > 60000) { r.limited = true; return; }
				out.push_back(a.out >= firstNormal ? a.out : 0);
				go(a.target, pos + (consume ? 1 : 0), depth + 1);
				out.pop_back();
				if (isFlag) fl[fid] = old;
				if (r.limited || r.outputs.size() >= maxOutputs) return;
			}
		};
		go(0, 0, 0);
		return r;
	}
	uint16_t u16(size_t o) const { uint16_t v = 0; if (o + 2 <= data.size()) memcpy(&v, data.data() + o, 2); return v; }
	uint32_t u32(size_t o) const { uint32_t v = 0; if (o + 4 <= data.size()) memcpy(&v, data.data() + o, 4); return v; }
	std::vector<W> wsyms;
};

} // namespace vfst
