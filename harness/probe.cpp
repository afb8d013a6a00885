// Probe: drives the real LHF classes through their public interface and records
// what they did as an event log (one text line per event, doubles as %a).  All
// judging is done offline by the monitors (lib/*.py); nothing is asserted here.
//
//   probe CASES EVENTS
//
// CASES: one case per line:  <id> <command> <arguments...>
// EVENTS: "begin <id>" ... "end <id>"; flushed per line so that a crash inside a
// case leaves the log cut inside that case.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <fstream>
#include <iostream>
#include <sstream>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <unistd.h>
#include <sys/wait.h>
#include <atomic>
#include <condition_variable>
#include <locale>
#include <mutex>
#include <thread>
#include <random>
#include <algorithm>
#include "readInput.hpp"
#include "argParser.hpp"
#include "basePipe.hpp"
#include "writeOutput.hpp"
#include "pipePacket.hpp"
#include "preprocessor.hpp"
#include "utils.hpp"
#include "simplexArrayList.hpp"
#include "simplexTree.hpp"
#include "indSimplexTree.hpp"
#include "dbscan.hpp"
#include "denStream.hpp"
#include "kdTree.hpp"
#include "slidingWindow.hpp"
#include "naiveWindow.hpp"

typedef std::vector<std::vector<double>> Mat;
typedef std::map<std::string, std::string> Conf;

// every thread has its own log; afterEv (command 'together') may hand over to another thread
static thread_local FILE *out;
static void (*afterEv)() = 0;

static void ev(const std::string &s){ fputs(s.c_str(), out); fputc('\n', out); fflush(out); if(afterEv) afterEv(); }

static std::string hx(double d){ char b[64]; snprintf(b, sizeof b, "%a", d); return b; }

static std::string esc(const std::string &s){
	std::string r;
	for(unsigned char c : s){
		if(c <= ' ' || c == '%' || c >= 127){ char b[8]; snprintf(b, sizeof b, "%%%02x", c); r += b; }
		else r += (char)c;
	}
	return r.empty() ? "%" : r;
}
static std::string unesc(const std::string &s){
	if(s == "%") return "";
	std::string r;
	for(size_t i = 0; i < s.size(); i++){
		if(s[i] == '%' && i + 2 < s.size() + 0 + 0 && i + 2 <= s.size() - 1){ r += (char)strtol(s.substr(i+1,2).c_str(), 0, 16); i += 2; }
		else r += s[i];
	}
	return r;
}

struct In {
	std::istringstream is;
	In(const std::string &s) : is(s) {}
	std::string str(){ std::string t; if(!(is >> t)){ fprintf(stderr, "PROBE-PROTOCOL: short case line\n"); _exit(97); } return t; }
	std::string text(){ return unesc(str()); }
	double dbl(){ return strtod(str().c_str(), 0); }
	long num(){ return strtol(str().c_str(), 0, 10); }
	Mat mat(){ long n = num(), m = num(); Mat r(n); for(auto &x : r){ for(long j = 0; j < m; j++) x.push_back(dbl()); } return r; }
	// rows of individual length
	Mat rag(){ long n = num(); Mat r(n); for(auto &x : r){ long m = num(); for(long j = 0; j < m; j++) x.push_back(dbl()); } return r; }
	std::vector<unsigned> uvec(){ long n = num(); std::vector<unsigned> r; while(n-- > 0) r.push_back((unsigned)num()); return r; }
	std::vector<double> dvec(){ long n = num(); std::vector<double> r; while(n-- > 0) r.push_back(dbl()); return r; }
	Conf conf(){ long n = num(); Conf r; while(n-- > 0){ std::string k = text(); r[k] = text(); } return r; }
};

template<class V> static std::string join(const V &v){ std::string r; for(auto x : v){ if(!r.empty()) r += ' '; r += std::to_string(x); } return r; }
static std::string joinD(const std::vector<double> &v){ std::string r; for(auto x : v){ if(!r.empty()) r += ' '; r += hx(x); } return r; }
static void evMat(const std::string &tag, const Mat &m){ ev(tag + ".rows " + std::to_string(m.size())); for(auto &r : m) ev(tag + " " + joinD(r)); }

static Conf defaults(){
	argParser ap;
	Conf c;
	ap.defaultArguments(c);
	return c;
}

static void dumpComplex(simplexBase *cx, double eps){
	auto e = cx->getAllEdges(eps);
	ev("levels " + std::to_string(e.size()));
	for(unsigned d = 0; d < e.size(); d++){
		for(auto &s : e[d]) ev("splx " + std::to_string(d) + " " + hx(s.second) + " " + join(s.first));
	}
	ev("counts " + std::to_string(cx->vertexCount()) + " " + std::to_string(cx->simplexCount()) + " " + hx(cx->getSize()));
}

static void dumpBars(pipePacket *wD, size_t from){
	ev("betti " + esc(wD->bettiOutput));
	for(size_t i = from; i < wD->bettiTable.size(); i++){
		auto &b = wD->bettiTable[i];
		ev("table " + std::to_string(b.bettiDim) + " " + hx(b.birth) + " " + hx(b.death) + " " + join(b.boundaryPoints));
	}
}

// run dot separated stages on a packet, exactly as the executable does
static void runStages(Conf &args, pipePacket *wD, bool dumpEach){
	std::string p = args["pipeline"];
	std::stringstream ss(p);
	std::string stage;
	while(std::getline(ss, stage, '.')){
		basePipe *bp = new basePipe();
		basePipe *cp = bp->newPipe(stage, args["complexType"]);
		bool ok = cp != 0 && cp->configPipe(args);
		ev("stage " + esc(stage) + " " + (cp ? "made" : "null") + " " + (ok ? "1" : "0"));
		if(ok) *wD = cp->runPipeWrapper(*wD);
		if(ok && dumpEach) ev("after " + esc(stage) + " " + std::to_string(wD->complex->vertexCount()) + " " + std::to_string(wD->complex->simplexCount()));
	}
}

static void cmdPipeline(In &in){
	Conf c = defaults();
	for(auto &kv : in.conf()) c[kv.first] = kv.second;
	argParser ap; ap.setPipeline(c);
	Mat data = in.mat();
	pipePacket *wD = new pipePacket(c, c["complexType"]);
	wD->originalData = data; wD->fullData = data;
	if(c["preprocessor"] != ""){
		preprocessor *pp = new preprocessor();
		preprocessor *q = pp->newPreprocessor(c["preprocessor"]);
		bool ok = q && q->configPreprocessor(c);
		ev(std::string("pre ") + (ok ? "1" : "0"));
		if(ok) *wD = q->runPreprocessorWrapper(*wD);
		evMat("reps", wD->originalData);
		ev("labels " + join(wD->originalLabels));
		evMat("full", wD->fullData);
		if(wD->originalData.empty()) return;
	}
	runStages(c, wD, true);
	evMat("dist", wD->complex->distMatrix);
	{ std::string w; for(double x : wD->weights) w += " " + hx(x); ev("weights" + w); }
	dumpComplex(wD->complex, atof(c["epsilon"].c_str()));
	dumpBars(wD, 0);
	ev("stats " + esc(wD->stats));
	evMat("data", wD->originalData);
}

// several data sets, one after the other, through the same packet with clear() in
// between ("run"), then each of them through a packet of its own ("fresh")
static void reuseRun(Conf &c, pipePacket *wD, const Mat &data){
	wD->originalData = data; wD->fullData = data;
	wD->bettiTable.clear();
	wD->stats.clear();
	wD->bettiOutput.clear();
	runStages(c, wD, true);
	evMat("dist", wD->complex->distMatrix);
	dumpComplex(wD->complex, atof(c["epsilon"].c_str()));
	dumpBars(wD, 0);
	ev("stats " + esc(wD->stats));
}
static void cmdReuse(In &in){
	Conf c = defaults();
	for(auto &kv : in.conf()) c[kv.first] = kv.second;
	argParser ap; ap.setPipeline(c);
	long k = in.num();
	std::vector<Mat> sets;
	for(long i = 0; i < k; i++) sets.push_back(in.mat());
	pipePacket *wD = new pipePacket(c, c["complexType"]);
	for(long i = 0; i < k; i++){
		ev("run " + std::to_string(i));
		reuseRun(c, wD, sets[i]);
		wD->complex->clear();
		auto e = wD->complex->getAllEdges(atof(c["epsilon"].c_str()));
		size_t left = 0; for(auto &l : e) left += l.size();
		ev("cleared " + std::to_string(wD->complex->vertexCount()) + " " + std::to_string(wD->complex->simplexCount()) + " " + hx(wD->complex->getSize()) + " " + std::to_string(left));
	}
	for(long i = 0; i < k; i++){
		ev("fresh " + std::to_string(i));
		pipePacket *f = new pipePacket(c, c["complexType"]);
		reuseRun(c, f, sets[i]);
	}
}

// complex only: distance matrix in, inserts, expansion, queries
static void cmdComplex(In &in){
	std::string type = in.text();
	double eps = in.dbl(); long dim = in.num(); long expand = in.num();
	Mat dist = in.mat();
	auto between = in.uvec();     // look at the content after these insertions already
	Conf c = defaults();
	{ char b[64]; snprintf(b, sizeof b, "%.17g", eps); c["epsilon"] = b; }
	c["dimensions"] = std::to_string(dim);
	// '@type': the other constructor, settings given directly
	pipePacket *wD = type[0] == '@' ? new pipePacket(type.substr(1), eps, (int)dim) : new pipePacket(c, type);
	wD->complex->setDistanceMatrix(dist);
	for(size_t i = 0; i < dist.size(); i++){ std::vector<double> p = {double(i), 1.0}; wD->complex->insert(p); ev("inserted " + std::to_string(wD->complex->vertexCount()) + " " + std::to_string(wD->complex->simplexCount())); if(std::find(between.begin(), between.end(), i) != between.end()) wD->complex->getAllEdges(eps); }
	if(expand > 0) wD->complex->expandDimensions(expand);
	dumpComplex(wD->complex, eps);
	long q = in.num();
	while(q-- > 0){
		std::string kind = in.str();
		if(kind == "dimedges"){ long d = in.num(); double e = in.dbl(); auto r = wD->complex->getDimEdges(d, e); std::string s; for(auto &x : r) s += " " + esc(join(x)); ev("dimedges " + std::to_string(d) + " " + hx(e) + s); }
		else if(kind == "findv"){ auto v = in.uvec(); ev("find " + std::string(wD->complex->find(v) ? "1" : "0") + " " + join(v)); }
		else if(kind == "finds"){ auto v = in.uvec(); std::set<unsigned> s(v.begin(), v.end()); ev("find " + std::string(wD->complex->find(s) ? "1" : "0") + " " + join(v)); }
		else if(kind == "again"){ dumpComplex(wD->complex, eps); }
		else { fprintf(stderr, "PROBE-PROTOCOL: query %s\n", kind.c_str()); _exit(97); }
	}
}

static void cmdReadCSV(In &in){ readInput r; evMat("row", r.readCSV(in.text())); }
static void cmdReadMAT(In &in){ readInput r; evMat("row", r.readMAT(in.text())); }
// one reader, a sequence of (file, how many rows to read; -1: until none is delivered)
static void cmdStreams(In &in){
	long n = in.num();
	readInput r;
	while(n-- > 0){
		std::string f = in.text(); long lim = in.num();
		bool ok = r.streamInit(f);
		ev(std::string("open ") + (ok ? "1" : "0"));
		std::vector<double> row;
		long k = 0;
		while((lim < 0 || k < lim) && k < 1000000){
			row.clear();
			if(!r.streamRead(row)){ ev("eof"); break; }
			ev("row " + joinD(row));
			k++;
		}
	}
}
static void cmdWrite(In &in){
	std::string kind = in.str(), file = in.text();
	writeOutput w; bool ok = false;
	if(kind == "csvmat"){ Mat m = in.rag(); ok = w.writeCSV(m, file); }
	else if(kind == "csvmath"){ std::string h = in.text(); Mat m = in.rag(); ok = w.writeCSV(m, file, h); }
	else if(kind == "csvstr"){ std::string s = in.text(); ok = w.writeCSV(s, file); }
	else if(kind == "csvstrh"){ std::string h = in.text(), s = in.text(); ok = w.writeCSV(s, file, h); }
	else if(kind == "mat"){ Mat m = in.rag(); ok = w.writeMAT(m, file); }
	else if(kind == "stats"){ std::string s = in.text(); ok = w.writeStats(s, file); }
	else if(kind == "barstr"){ std::string s = in.text(); ok = w.writeBarcodes(s, file); }
	else if(kind == "barmat"){ Mat m = in.rag(); ok = w.writeBarcodes(m, file); }
	else { fprintf(stderr, "PROBE-PROTOCOL: write %s\n", kind.c_str()); _exit(97); }
	ev(std::string("wrote ") + (ok ? "1" : "0"));
	std::string back = in.str();
	readInput r;
	if(back == "csv") evMat("back", r.readCSV(file + ".csv"));
	else if(back == "mat") evMat("back", r.readMAT(file + ".mat"));
	std::string path = file + (kind == "mat" ? ".mat" : kind == "stats" ? "_stats.csv" : ".csv");
	std::ifstream f(path, std::ios::binary); std::stringstream ss; ss << f.rdbuf();
	ev(std::string("file ") + (f ? "1 " : "0 ") + esc(ss.str()));
}
static void cmdArgs(In &in){
	long n = in.num(); long pipe = in.num();
	std::vector<std::string> a; while(n-- > 0) a.push_back(in.text());
	std::vector<char*> argv; for(auto &s : a) argv.push_back(&s[0]); argv.push_back(0);
	argParser ap;
	auto m = ap.parse((int)a.size(), argv.data());
	if(pipe) ap.setPipeline(m);
	for(auto &kv : m) ev("arg " + esc(kv.first) + " " + esc(kv.second));
}
static void cmdDefaults(In &in){
	Conf c = in.conf();
	argParser ap;
	auto m = ap.defaultArguments(c);
	for(auto &kv : m) ev("arg " + esc(kv.first) + " " + esc(kv.second));
}
static void cmdPre(In &in){
	Conf c = defaults();
	for(auto &kv : in.conf()) c[kv.first] = kv.second;
	srand((unsigned)in.num());
	Mat data = in.mat();
	pipePacket *wD = new pipePacket(c, c["complexType"]);
	wD->originalData = data; wD->fullData = data;
	preprocessor *pp = new preprocessor();
	preprocessor *q = pp->newPreprocessor(c["preprocessor"]);
	bool ok = q && q->configPreprocessor(c);
	ev(std::string("pre ") + (q ? "made" : "null") + " " + (ok ? "1" : "0"));
	if(ok) *wD = q->runPreprocessorWrapper(*wD);
	evMat("reps", wD->originalData);
	ev("labels " + join(wD->originalLabels));
	ev("full.same " + std::string(wD->fullData == data ? "1" : "0"));
	ev("stats " + esc(wD->stats));
}
static void cmdKd(In &in){
	long size = in.num();
	Mat data = in.mat();
	kdTree t(data, (int)size);
	long q = in.num();
	while(q-- > 0){
		std::string k = in.str();
		auto p = in.dvec();
		if(k == "near"){
			size_t i = t.nearestIndex(p);
			ev("near " + std::to_string(i) + " " + joinD(t.nearestPoint(p)));
			auto pi = t.nearestPointIndex(p);
			ev("nearpi " + std::to_string(pi.second) + " " + joinD(pi.first));
		} else {
			double r = in.dbl();
			auto idx = t.neighborhoodIndices(p, r);
			ev("nbhd " + join(idx));
			auto pts = t.neighborhoodPoints(p, r);
			for(auto &x : pts) ev("nbpt " + joinD(x));
			auto both = t.neighborhood(p, r);
			for(auto &x : both) ev("nbpi " + std::to_string(x.second) + " " + joinD(x.first));
			ev("nbend");
		}
	}
}
static void cmdDbscan(In &in){
	long mp = in.num(); double eps = in.dbl(); long size = in.num();
	Mat data = in.mat();
	auto l = dbscan::cluster(data, (int)mp, eps, (int)size);
	ev("labels " + join(l));
}
static void cmdMicro(In &in){
	long t0 = in.num(); double lambda = in.dbl(); long dim = in.num(); long n = in.num();
	microCluster m((int)t0, (int)dim, lambda);
	while(n-- > 0){
		long t = in.num(); auto p = in.dvec();
		ev("merge " + hx(m.mergeRadius(p, (int)t)));
		m.insertPoint(p, (int)t);
		long q = in.num();
		ev("mc " + std::to_string(m.getCreationTime()) + " " + hx(m.getWeight((int)q)) + " " + hx(m.getRadius()) + " " + joinD(m.getCenter()));
	}
}
static std::string sv(const std::vector<unsigned> &v){ return esc(join(v)); }
static std::string ss(const std::set<unsigned> &v){ return esc(join(v)); }
static void cmdSets(In &in){
	utils u;
	auto a = in.uvec(), b = in.uvec(); bool sorted = in.num() != 0;
	std::set<unsigned> sa(a.begin(), a.end()), sb(b.begin(), b.end());
	ev("xor " + ss(u.setXOR(sa, sb)));
	ev("ints " + ss(u.setIntersect(sa, sb, true)));
	ev("intv " + sv(u.setIntersect(a, b, sorted)));
	ev("sdv " + sv(u.symmetricDiff(a, b, sorted)));
	ev("sds " + sv(u.symmetricDiff(sa, sb, true)));
	ev("union " + sv(u.setUnion(a, b, sorted)));
	auto p = u.intersect(a, b, sorted);
	ev("adj " + sv(p.first) + " " + sv(p.second));
	ev("ints2 " + ss(u.setIntersect(sa, sb, false)));
	ev("sds2 " + sv(u.symmetricDiff(sa, sb, false)));
	if(sa.size() > 13) return;     // enumeration is exponential
	for(auto &x : u.getSubsets(sa)) ev("facets " + ss(x));
	std::vector<unsigned> va(sa.begin(), sa.end());
	for(auto &x : u.getSubsets(va)) ev("facetv " + sv(x));
	for(int d = 0; d <= (int)sa.size() + 1; d++) for(auto &x : u.getSubsets(sa, d)) ev("sub " + std::to_string(d) + " " + ss(x));
}
static void cmdDistances(In &in){
	utils u;
	Mat m = in.mat();
	for(auto &a : m){ ev("nn " + joinD(u.nearestNeighbors(a, m))); if(&a - &m[0] == 1 && m.size() > 300) break; for(auto &b : m) ev("d " + hx(u.vectors_distance(a, b))); }
}
static void cmdPart(In &in){
	utils u;
	Mat data = in.mat(); Mat cent = in.mat(); auto labels = in.uvec(); double rad = in.dbl(); long nb = in.num();
	std::vector<std::set<unsigned>> bl; while(nb-- > 0){ auto v = in.uvec(); bl.push_back(std::set<unsigned>(v.begin(), v.end())); }
	ev("maxrad " + hx(u.computeMaxRadius((int)cent.size(), cent, data, labels)));
	auto p = u.separatePartitions((int)cent.size(), data, labels);
	ev("p1 " + std::to_string(p.first.size()) + " " + std::to_string(p.second.size()));
	for(size_t i = 0; i < p.first.size(); i++) ev("p1l " + sv(p.first[i]));
	for(size_t i = 0; i < p.second.size(); i++) evMat("p1d", p.second[i]);
	auto q = u.separatePartitions(rad, cent, data, labels);
	ev("p2 " + std::to_string(q.first.size()) + " " + std::to_string(q.second.size()));
	for(size_t i = 0; i < q.first.size(); i++) ev("p2l " + sv(q.first[i]));
	for(size_t i = 0; i < q.second.size(); i++) evMat("p2d", q.second[i]);
	auto b = u.separateBoundaryPartitions(bl, data, labels);
	ev("p3 " + std::to_string(b.size()));
	for(size_t i = 0; i < b.size(); i++) evMat("p3d", b[i]);
}
static void cmdMapIdx(In &in){
	utils u;
	auto lab = in.uvec(); long n = in.num();
	std::vector<bettiBoundaryTableEntry> t;
	while(n-- > 0){ bettiBoundaryTableEntry e; e.bettiDim = in.num(); e.birth = in.dbl(); e.death = in.dbl(); auto v = in.uvec(); e.boundaryPoints = std::set<unsigned>(v.begin(), v.end()); t.push_back(e); }
	u.mapPartitionIndexing(lab, t);
	for(auto &b : t) ev("table " + std::to_string(b.bettiDim) + " " + hx(b.birth) + " " + hx(b.death) + " " + join(b.boundaryPoints));
}
// the sliding window keeps its state in a static object; as it is at start
static slidingWindow::EvalParams swInitial;
static void dumpWindow(){
	auto *d = slidingWindow::defaultVals;
	ev("keys " + join(d->windowKeys));
	ev("parts " + join(d->partitionLabels));
	ev("nnidx " + join(d->nnIndices));
	ev("nnd " + joinD(d->nnDists));
	for(auto &kv : d->avgNNDistPartitions) ev("avg " + std::to_string(kv.first) + " " + hx(kv.second));
	for(auto &kv : d->numPointsPartn) ev("num " + std::to_string(kv.first) + " " + std::to_string(kv.second));
	for(auto &kv : d->maxKeys) ev("maxkey " + std::to_string(kv.first) + " " + std::to_string(kv.second));
}
// window pipes over a file
static void cmdWindow(In &in){
	Conf c = defaults();
	for(auto &kv : in.conf()) c[kv.first] = kv.second;
	pipePacket *wD = new pipePacket(c, c["complexType"]);
	basePipe *bp = new basePipe();
	basePipe *cp = bp->newPipe(c["pipeline"], c["complexType"]);
	bool ok = cp && cp->configPipe(c);
	ev(std::string("cfg ") + (ok ? "1" : "0"));
	if(!ok) return;
	if(c["pipeline"] == "slidingwindow") *slidingWindow::defaultVals = swInitial;
	*wD = cp->runPipeWrapper(*wD);
	evMat("win", wD->originalData);
	evMat("dist", wD->complex->distMatrix);
	dumpComplex(wD->complex, atof(c["epsilon"].c_str()));
	ev("stats " + esc(wD->stats));
	if(c["pipeline"] != "slidingwindow") return;
	dumpWindow();
	// further points, put to the novelty rule directly
	long n = in.num();
	Mat win = wD->originalData;
	while(n-- > 0){
		auto p = in.dvec();
		bool ok = slidingWindow::nnBasedEvaluator(p, win);
		ev(std::string("eval ") + (ok ? "1" : "0"));
		if(ok) break;
		ev("winsame " + std::string(win == wD->originalData ? "1" : "0"));
		dumpWindow();
	}
}
static void cmdLog(In &in){
	std::string dbg = in.text(), file = in.text(); long n = in.num();
	utils u(dbg, file);
	while(n-- > 0){
		std::string k = in.str(), mod = in.text(), msg = in.text();
		if(k == "log") u.writeLog(mod, msg); else if(k == "dbg") u.writeDebug(mod, msg); else u.writeError(mod, msg);
	}
}

typedef std::map<std::string, void(*)(In&)> Cmds;
static Cmds *commands;

static void runJob(const std::string &line){
	In in(line);
	std::string cmd = in.str();
	auto it = commands->find(cmd);
	if(it == commands->end() || cmd == "together"){ fprintf(stderr, "PROBE-PROTOCOL: job %s\n", cmd.c_str()); _exit(97); }
	it->second(in);
}

// several commands: each alone in a process of its own, then all of them in
// threads that take turns (hand-over after every event, order from the seed),
// then all at the same time
static struct { std::mutex m; std::condition_variable cv; int turn; std::vector<int> live; std::mt19937 rng; unsigned long hash, count; } baton;
static thread_local int me = -1;
static thread_local std::mt19937 *mine;
static void pass(bool leave){     // with the lock held by l
	std::unique_lock<std::mutex> l(baton.m);
	if(leave) baton.live.erase(std::find(baton.live.begin(), baton.live.end(), me));
	baton.turn = baton.live.empty() ? -1 : baton.live[baton.rng() % baton.live.size()];
	baton.hash = baton.hash * 1000003 + baton.turn + 2; baton.count++;
	baton.cv.notify_all();
	if(!leave) baton.cv.wait(l, []{ return baton.turn == me; });
}
static void handOver(){ if(me >= 0) pass(false); }
static void jitter(){ if(mine){ unsigned x = (*mine)() % 8; if(x == 0) usleep((*mine)() % 300); else if(x < 4) sched_yield(); } }

static void cmdTogether(In &in){
	unsigned long seed = in.num(); long k = in.num();
	std::vector<std::string> jobs; while(k-- > 0) jobs.push_back(in.text());
	int n = jobs.size();
	for(int i = 0; i < n; i++){
		int p[2];
		if(pipe(p)) _exit(97);
		fflush(0); std::cout.flush();
		pid_t pid = fork();
		if(pid == 0){
			close(p[0]);
			out = fdopen(p[1], "w");
			runJob(jobs[i]);
			fclose(out);
			_exit(0);
		}
		close(p[1]);
		std::string got; char b[65536]; ssize_t r;
		while((r = read(p[0], b, sizeof b)) > 0) got.append(b, r);
		close(p[0]);
		int st = 0; waitpid(pid, &st, 0);
		ev("alone " + std::to_string(i) + " " + std::to_string(st));
		fputs(got.c_str(), out);
	}
	for(int mode = 0; mode < 2; mode++){
		std::vector<std::pair<char*, size_t>> bufs(n);
		std::vector<std::thread> th;
		std::atomic<int> ready(0);
		baton.live.clear(); for(int i = 0; i < n; i++) baton.live.push_back(i);
		baton.rng.seed(seed); baton.hash = baton.count = 0;
		baton.turn = mode == 0 ? (int)(seed % n) : -1;
		afterEv = mode == 0 ? handOver : jitter;
		for(int i = 0; i < n; i++) th.emplace_back([&, i]{
			out = open_memstream(&bufs[i].first, &bufs[i].second);
			std::mt19937 r(seed + i);
			if(mode == 0){
				me = i;
				{ std::unique_lock<std::mutex> l(baton.m); baton.cv.wait(l, [i]{ return baton.turn == i; }); }
				runJob(jobs[i]);
				fclose(out);
				pass(true);
			} else {
				mine = &r;
				ready++;
				while(ready.load() < n) sched_yield();
				runJob(jobs[i]);
				fclose(out);
			}
		});
		for(auto &t : th) t.join();
		afterEv = 0;
		if(mode == 0) ev("turns " + std::to_string(baton.count) + " " + std::to_string(baton.hash));
		for(int i = 0; i < n; i++){ ev((mode == 0 ? "inturn " : "threads ") + std::to_string(i)); fputs(bufs[i].first, out); free(bufs[i].first); }
	}
}

int main(int argc, char **argv){
	if(argc < 3) return 98;
	std::ifstream cases(argv[1]);
	out = fopen(argv[2], "w");
	if(!cases || !out) return 98;
	swInitial = *slidingWindow::defaultVals;
	// the standard library fills these tables on first use, without a lock
	auto &ct = std::use_facet<std::ctype<char>>(std::locale());
	for(int i = 0; i < 256; i++){ ct.narrow((char)i, 0); ct.widen((char)i); }
	Cmds cmds = {
		{"pipeline", cmdPipeline}, {"reuse", cmdReuse}, {"complex", cmdComplex}, {"readcsv", cmdReadCSV}, {"readmat", cmdReadMAT},
		{"streams", cmdStreams}, {"write", cmdWrite}, {"args", cmdArgs}, {"defaults", cmdDefaults}, {"pre", cmdPre}, {"kd", cmdKd}, {"dbscan", cmdDbscan},
		{"micro", cmdMicro}, {"sets", cmdSets}, {"distances", cmdDistances}, {"part", cmdPart}, {"mapidx", cmdMapIdx},
		{"window", cmdWindow}, {"log", cmdLog}, {"together", cmdTogether} };
	commands = &cmds;
	std::string line;
	while(std::getline(cases, line)){
		if(line.empty()) continue;
		In in(line);
		std::string id = in.str(), cmd = in.str();
		ev("begin " + id);
		auto it = cmds.find(cmd);
		if(it == cmds.end()){ fprintf(stderr, "PROBE-PROTOCOL: command %s\n", cmd.c_str()); return 97; }
		it->second(in);
		std::cout.flush();
		ev("end " + id);
	}
	fclose(out);
	return 0;
}
