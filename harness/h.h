// Core of the exhaustive explorers: numbered cases, breadcrumbs for crashes, failures, and coverage counters.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <fcntl.h>
#include <map>
#include <string>
#include <sys/mman.h>
#include <sys/personality.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace H
{
    using std::string;
    struct Crumb { volatile uint64_t n; char desc[1 << 16]; };

    struct State
    {
        bool thorough = false;
        long only = -1, upto = -1, from = 0, shard = 0, shards = 1; // each process of a run executes the cases of its own remainder
        Crumb *crumb = nullptr;
        FILE *fails = nullptr;
        string out;
        uint64_t n = 0, executed = 0, transitions = 0, traces = 0, nfail = 0;
        std::unordered_set<uint64_t> states;
        std::map<string, uint64_t> perkey;
        std::map<string, string> info; // raw json values
        std::vector<string> samples;
        string desc;
        double limit = 500;
        bool capped = false;
        std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();
    };
    inline State S;
    struct Stop {};

    inline string esc(const string &s)
    {
        string r;
        char b[8];
        for (unsigned char c : s)
        {
            if (c == '\\') r += "\\\\";
            else if (c == '\t') r += "\\t";
            else if (c == '\n') r += "\\n";
            else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\x%02x", c); r += b; }
            else r += (char)c;
        }
        return r;
    }
    inline string jstr(const string &s)
    {
        string r = "\"";
        for (char c : esc(s)) { if (c == '"' || c == '\\') r += '\\'; r += c; }
        return r + "\"";
    }
    inline double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - S.t0).count(); }

    // Starts the next case of the enumeration. False: this case is not to be executed (replay of another one).
    inline bool tick(const string &desc)
    {
        S.n++;
        if (S.only >= 0 && (long)S.n != S.only) { if ((long)S.n > S.only) throw Stop(); return false; }
        if (S.upto >= 0 && (long)S.n > S.upto) throw Stop();
        if (S.only < 0 && S.shards > 1 && (long)(S.n % S.shards) != S.shard) { if ((S.n & 1023) == 0 && elapsed() > S.limit) { S.capped = true; throw Stop(); } return false; }
        if ((S.executed & 15) == 0 && S.only < 0 && elapsed() > S.limit) { S.capped = true; throw Stop(); }
        S.desc = desc;
        S.executed++;
        if (S.crumb)
        {
            size_t l = std::min(desc.size(), sizeof(S.crumb->desc) - 1);
            memcpy(S.crumb->desc, desc.data(), l);
            S.crumb->desc[l] = 0;
            S.crumb->n = S.n;
        }
        uint64_t e = S.executed;
        if (S.samples.size() < 12 && (e == 1 || e == 7 || e == 50 || e == 333 || (e & (e - 1)) == 0 && e > 4000)) S.samples.push_back(desc);
        return true;
    }
    inline void fail(const string &key, const string &msg)
    {
        S.nfail++;
        if (S.perkey[key]++ < 25 && S.fails)
        {
            fprintf(S.fails, "%llu\t%s\t%s\t%s\n", (unsigned long long)S.n, esc(key).c_str(), esc(msg).c_str(), esc(S.desc).c_str());
            fflush(S.fails);
        }
        if (S.nfail > 20000) throw Stop();
    }
    inline bool expect(bool ok, const string &key, const string &msg) { if (!ok) fail(key, msg); return ok; }
    inline void state(const string &s) { S.states.insert(std::hash<string>{}(s)); }
    inline void trans(uint64_t k = 1) { S.transitions += k; }
    inline void trace(uint64_t k = 1) { S.traces += k; }
    inline void info(const string &k, const string &rawjson) { S.info[k] = rawjson; }
    inline void infon(const string &k, uint64_t v) { S.info[k] = std::to_string(v); }
    inline void infos(const string &k, const string &v) { S.info[k] = jstr(v); }
    inline bool deep() { return S.thorough; }

    // Per-phase times and numbers of cases go into the evidence.
    inline string phases;
    inline void phase(const string &name)
    {
        char b[200];
        snprintf(b, sizeof b, "%s before phase %s: %llu cases, %.1f s", phases.empty() ? "" : ";", name.c_str(), (unsigned long long)S.executed, elapsed());
        phases += b;
        S.info["phases"] = jstr(phases);
    }

    int run(); // defined by each explorer

    inline int main_(int argc, char **argv)
    {
        if (!getenv("H_NOASLR"))
        {
            setenv("H_NOASLR", "1", 1);
            if (personality(0xffffffff) != -1 && personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1)
                execv("/proc/self/exe", argv);
        }
        string crumbfile, failfile, statefile;
        for (int i = 1; i < argc; i++)
        {
            string a = argv[i];
            auto next = [&] { return string(argv[++i]); };
            if (a == "--tier") S.thorough = next() == "thorough";
            else if (a == "--only") S.only = atol(next().c_str());
            else if (a == "--upto") S.upto = atol(next().c_str());
            else if (a == "--crumb") crumbfile = next();
            else if (a == "--fails") failfile = next();
            else if (a == "--out") S.out = next();
            else if (a == "--shard") S.shard = atol(next().c_str());
            else if (a == "--shards") S.shards = atol(next().c_str());
            else if (a == "--states") statefile = next();
            else if (a == "--limit") S.limit = atof(next().c_str());
        }
        if (!crumbfile.empty())
        {
            int fd = open(crumbfile.c_str(), O_RDWR | O_CREAT, 0644);
            if (fd >= 0 && ftruncate(fd, sizeof(Crumb)) == 0)
            {
                void *p = mmap(nullptr, sizeof(Crumb), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
                if (p != MAP_FAILED) S.crumb = (Crumb *)p;
            }
        }
        if (!failfile.empty()) S.fails = fopen(failfile.c_str(), "w");
        else S.fails = stdout;
        if (!getenv("H_STDERR")) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 2); }
        int rc = 0;
        try { rc = run(); }
        catch (Stop &) {}
        if (!statefile.empty())
        {
            std::vector<uint64_t> v(S.states.begin(), S.states.end());
            FILE *f = fopen(statefile.c_str(), "wb");
            if (f) { fwrite(v.data(), 8, v.size(), f); fclose(f); }
        }
        if (!S.out.empty())
        {
            FILE *f = fopen(S.out.c_str(), "w");
            fprintf(f, "{\"cases\": %llu, \"states\": %llu, \"transitions\": %llu, \"traces_validated_against_impl\": %llu, \"failures\": %llu, \"capped\": %s, \"explore_s\": %.2f",
                    (unsigned long long)S.executed, (unsigned long long)S.states.size(), (unsigned long long)S.transitions, (unsigned long long)S.traces, (unsigned long long)S.nfail, S.capped ? "true" : "false", elapsed());
            for (auto &p : S.info) fprintf(f, ", %s: %s", jstr(p.first).c_str(), p.second.c_str());
            fprintf(f, ", \"samples\": [");
            for (size_t i = 0; i < S.samples.size(); i++) fprintf(f, "%s%s", i ? ", " : "", jstr(S.samples[i].substr(0, 300)).c_str());
            fprintf(f, "]}\n");
            fclose(f);
        }
        fflush(stdout);
        if (S.fails) fflush(S.fails);
        if (S.crumb) S.crumb->n = 0; // regular end
        _exit(rc);
    }
}
#define H_MAIN int main(int argc, char **argv) { return H::main_(argc, argv); }
