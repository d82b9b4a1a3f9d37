// vf --profile NAME --seed N --from A --count N [--tier T] --out FILE
#include "profiles.hpp"
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

volatile uint64_t* gHeartbeat = nullptr;
static uint64_t beatStore = 0, beatLast = 0;
static volatile uint64_t episodeBeat = 0, episodeLast = 0;
static int same = 0;
static char* statusPage = nullptr;
static std::string statusFile;

static void onTimer(int) {
    // 5 s of CPU time since the previous tick
    if (beatStore == beatLast && episodeBeat == episodeLast) same++; else same = 0;
    beatLast = beatStore;
    episodeLast = episodeBeat;
    if (same >= 4) {
        if (gCurrent) {
            static const char m[] = "VF-HANG: a single service call does not end\n";
            if (write(2, m, sizeof m - 1)) {}
            _exit(97);
        }
        static const char m[] = "harness: no progress\n";
        if (write(2, m, sizeof m - 1)) {}
        _exit(98);
    }
}

void setCurrentText(const std::string& s) {
    episodeBeat = episodeBeat + 1;
    if (!statusPage) return;
    size_t n = std::min<size_t>(s.size(), 60000);
    memcpy(statusPage + 64, s.data(), n);
    statusPage[64 + n] = 0;
}

static std::string jstr(const std::string& s) {
    std::string o = "\"";
    char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c >= 127) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o + "\"";
}

int main(int argc, char** argv) {
    std::string profile, out;
    uint64_t seed = 1, from = 0, count = 1;
    int tier = 0;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i];
        if (a == "--profile") profile = argv[i + 1];
        else if (a == "--seed") seed = strtoull(argv[i + 1], nullptr, 10);
        else if (a == "--from") from = strtoull(argv[i + 1], nullptr, 10);
        else if (a == "--count") count = strtoull(argv[i + 1], nullptr, 10);
        else if (a == "--tier") tier = atoi(argv[i + 1]);
        else if (a == "--out") out = argv[i + 1];
    }
    if (!profiles().count(profile)) { fprintf(stderr, "unknown profile %s\n", profile.c_str()); return 3; }
    if (!out.empty()) {
        statusFile = out + ".status";
        int fd = open(statusFile.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ftruncate(fd, 65536) != 0) { perror("status"); return 3; }
        statusPage = (char*)mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
    }
    loadFeatures();
    canDropBuiltin = canRemoveBuiltin();
    gHeartbeat = &beatStore;
    struct sigaction sa = {};
    sa.sa_handler = onTimer;
    sigaction(SIGVTALRM, &sa, nullptr);
    struct itimerval it = {{5, 0}, {5, 0}};
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
    Ctx c;
    c.seed = seed;
    c.tier = tier;
    uint64_t done = 0, badIdx = 0;
    for (uint64_t i = from; i < from + count; i++) {
        if (statusPage) { snprintf(statusPage, 64, "%llu", (unsigned long long)i); statusPage[64] = 0; }
        episodeBeat = episodeBeat + 1;
        profiles()[profile](c, i, seed * 1000003ull + i);
        done++;
        if (c.violated) { badIdx = i; break; }
    }
    std::string j = "{\"episodes\":" + std::to_string(done) + ",\"evals\":" + std::to_string(c.st.evals) + ",\"foreign\":" +
                    std::to_string(c.st.foreign) + ",\"violated\":" + (c.violated ? "true" : "false") + ",\"index\":" +
                    std::to_string(badIdx) + ",\"text\":" + jstr(c.text.substr(0, 200000)) + ",\"counts\":{";
    bool first = true;
    for (auto& kv : c.st.n) { j += (first ? "" : ",") + jstr(kv.first) + ":" + std::to_string(kv.second); first = false; }
    j += "},\"foreign_by\":{";
    first = true;
    for (auto& kv : c.st.foreignBy) { j += (first ? "" : ",") + jstr(kv.first) + ":" + std::to_string(kv.second); first = false; }
    j += "},\"samples\":[";
    for (size_t i = 0; i < c.st.samples.size() && i < 6; i++) j += (i ? "," : "") + jstr(c.st.samples[i].substr(0, 3000));
    j += "]}\n";
    if (out.empty()) { fputs(j.c_str(), stdout); if (c.violated) printf("%s\n", c.text.c_str()); }
    else {
        FILE* f = fopen(out.c_str(), "w");
        if (!f) return 3;
        fputs(j.c_str(), f);
        fclose(f);
        f = fopen((out + ".hash").c_str(), "wb");
        if (!f) return 3;
        for (uint64_t h : c.st.distinct) fwrite(&h, 8, 1, f);
        fclose(f);
    }
    fflush(stdout);
    return c.violated ? 1 : 0;
}
