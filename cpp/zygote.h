// Shared scaffolding of the executors: a process that reads cases from stdin, runs each in a forked
// child (so no state leaks between cases) and returns the observations, or how the child died.
#pragma once
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace zy
{
    typedef std::vector<std::string> Cmd;

    inline std::string unhex(const std::string &h)
    {
        std::string r;
        auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
        for (size_t i = 1; i + 1 < h.size(); i += 2)
            r.push_back((char)(v(h[i]) * 16 + v(h[i + 1])));
        return r;
    }

    struct Json
    {
        std::string s;
        bool fresh = true;
        void sep()
        {
            if (!fresh)
                s += ',';
            fresh = false;
        }
        Json &open(char c)
        {
            sep();
            s += c;
            fresh = true;
            return *this;
        }
        Json &close(char c)
        {
            s += c;
            fresh = false;
            return *this;
        }
        Json &key(const char *k)
        {
            sep();
            s += '"';
            s += k;
            s += "\":";
            fresh = true;
            return *this;
        }
        void raw(const std::string &x)
        {
            sep();
            s += x;
        }
        Json &str(const std::string &x)
        {
            sep();
            s += '"';
            char b[8];
            for (unsigned char c : x)
            {
                if (c == '"' || c == '\\')
                {
                    s += '\\';
                    s += (char)c;
                }
                else if (c < 0x20 || c >= 0x7f)
                {
                    snprintf(b, sizeof b, "\\u%04x", c);
                    s += b;
                }
                else
                    s += (char)c;
            }
            s += '"';
            return *this;
        }
        Json &num(long long x)
        {
            raw(std::to_string(x));
            return *this;
        }
        Json &unum(unsigned long long x)
        {
            raw(std::to_string(x));
            return *this;
        }
        Json &real(double x)
        {
            char b[64];
            snprintf(b, sizeof b, "%.17g", x);
            if (x != x)
                raw("\"nan\"");
            else if (x - x != 0)
                raw(x > 0 ? "\"inf\"" : "\"-inf\"");
            else
                raw(b);
            return *this;
        }
        Json &boolean(bool x)
        {
            raw(x ? "true" : "false");
            return *this;
        }
        Json &null()
        {
            raw("null");
            return *this;
        }
    };
}

// Provided by each executor: runs one case, one JSON value per command in `out`.
std::string run_case(const std::vector<zy::Cmd> &cmds);
// Called once before cases are served.
void warm_up();

namespace zy
{
    inline bool read_full(int fd, void *p, size_t n)
    {
        char *c = (char *)p;
        while (n)
        {
            ssize_t k = read(fd, c, n);
            if (k <= 0)
                return false;
            c += k;
            n -= k;
        }
        return true;
    }
    inline void write_full(int fd, const char *c, size_t n)
    {
        while (n)
        {
            ssize_t k = write(fd, c, n);
            if (k <= 0)
                _exit(99);
            c += k;
            n -= k;
        }
    }
    inline std::vector<Cmd> split(const std::string &payload)
    {
        std::vector<Cmd> cmds;
        std::istringstream is(payload);
        std::string line;
        while (std::getline(is, line))
        {
            std::istringstream ls(line);
            Cmd c;
            std::string w;
            while (ls >> w)
                c.push_back(w[0] == '=' ? unhex(w) : w);
            if (!c.empty())
                cmds.push_back(c);
        }
        return cmds;
    }
    inline int serve(int argc, char **argv)
    {
        // no address space randomisation: hashes of atoms depend on their addresses
        if (!getenv("ZY_NOASLR"))
        {
            setenv("ZY_NOASLR", "1", 1);
            int p = personality(0xffffffff);
            bool again = p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1;
            // sanitised frames are several times larger than ordinary ones
            struct rlimit rl;
            if (getenv("ZY_STACK") && getrlimit(RLIMIT_STACK, &rl) == 0)
            {
                rlim_t want = (rlim_t)atol(getenv("ZY_STACK")) << 20;
                rl.rlim_cur = rl.rlim_max == RLIM_INFINITY || rl.rlim_max > want ? want : rl.rlim_max;
                again |= setrlimit(RLIMIT_STACK, &rl) == 0;
            }
            if (again)
                execv("/proc/self/exe", argv);
        }
        int cpu = getenv("ZY_CPU") ? atoi(getenv("ZY_CPU")) : 20;
        warm_up();
        int efd = memfd_create("stderr", 0);
        int saved_err = dup(2);
        int devnull = open("/dev/null", O_RDWR);
        for (;;)
        {
            uint32_t n;
            if (!read_full(0, &n, 4))
                return 0;
            std::string payload(n, '\0');
            if (n && !read_full(0, &payload[0], n))
                return 0;
            int fds[2];
            if (pipe(fds))
                return 98;
            if (ftruncate(efd, 0) || lseek(efd, 0, SEEK_SET))
                return 98;
            pid_t pid = fork();
            if (pid < 0)
                return 97;
            if (pid == 0)
            {
                close(fds[0]);
                dup2(devnull, 0);
                dup2(devnull, 1);
                dup2(efd, 2);
                struct rlimit rl = {(rlim_t)cpu, (rlim_t)cpu + 2};
                setrlimit(RLIMIT_CPU, &rl);
                std::string out;
                out = run_case(split(payload));
                write_full(fds[1], out.data(), out.size());
                _exit(0);
            }
            close(fds[1]);
            std::string out;
            char b[65536];
            ssize_t k;
            while ((k = read(fds[0], b, sizeof b)) > 0)
                out.append(b, k);
            close(fds[0]);
            int st = 0;
            waitpid(pid, &st, 0);
            std::string err;
            if (st != 0)
            {
                off_t end = lseek(efd, 0, SEEK_END);
                off_t from = end > 6000 ? end - 6000 : 0;
                err.resize(end - from);
                if (pread(efd, &err[0], err.size(), from) < 0)
                    err = "?";
                if (end > 6000)
                {
                    std::string head(3000, '\0');
                    if (pread(efd, &head[0], head.size(), 0) < 0)
                        head = "?";
                    err = head + "\n...\n" + err;
                }
            }
            uint32_t h[3] = {(uint32_t)st, (uint32_t)out.size(), (uint32_t)err.size()};
            write_full(1, (char *)h, sizeof h);
            write_full(1, out.data(), out.size());
            write_full(1, err.data(), err.size());
        }
        (void)saved_err;
    }
}
int main(int argc, char **argv) { return zy::serve(argc, argv); }
