// Threads in several processes, driven one request at a time.
#ifndef ACTORS_HPP
#define ACTORS_HPP

#include "pbt.hpp"

#include <cerrno>
#include <chrono>
#include <csignal>
#include <memory>
#include <poll.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

namespace actors
{

struct message
{
    int op = 0;
    int args[6] = {};
    char text[900] = {};
    void set(const std::string& s)
    {
        if (s.size() >= sizeof text) pbt::fail("harness", "text is too long");
        std::memcpy(text, s.data(), s.size());
        args[5] = static_cast<int>(s.size());
    }
    std::string get() const { return std::string(text, static_cast<std::size_t>(args[5])); }
};

/// What a thread does with a request; one is made in every thread.
using handler = std::function<void(const message&, message&)>;
using handler_factory = std::function<handler(int process, int thread)>;

class cast
{
public:
    cast(int processes, int threadsEach, const handler_factory& make)
    {
        for (int p = 0; p < processes; ++p)
            for (int t = 0; t < threadsEach; ++t) {
                int s[2];
                if (socketpair(AF_UNIX, SOCK_SEQPACKET, 0, s) != 0) pbt::fail("harness", "socketpair");
                actors_.push_back({p, t, s[0], s[1], false});
            }
        for (int p = 0; p < processes; ++p) {
            std::fflush(nullptr);
            const pid_t pid = fork();
            if (pid < 0) pbt::fail("harness", "fork");
            if (pid == 0) {
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                std::vector<std::thread> threads;
                std::vector<std::pair<int, int>> mine;
                for (auto& a : actors_) {
                    close(a.fd);
                    if (a.process == p) mine.push_back({a.thread, a.peer});
                    else close(a.peer);
                }
                for (auto [t, fd] : mine)
                    threads.emplace_back([&make, p, t = t, fd = fd] {
                        {
                            auto h = make(p, t);
                            message in;
                            while (recv(fd, &in, sizeof in, 0) == static_cast<ssize_t>(sizeof in)) {
                                message out;
                                try {
                                    h(in, out);
                                } catch (const std::exception& e) {
                                    out.op = -1;
                                    out.set(std::string(e.what()).substr(0, 800));
                                }
                                if (send(fd, &out, sizeof out, MSG_NOSIGNAL) < 0) break;
                            }
                        }
                        close(fd);
                    });
                for (auto& t : threads) t.join();
                std::fflush(nullptr);
                _exit(0);
            }
            pids_.push_back(pid);
        }
        for (auto& a : actors_) close(a.peer);
    }

    ~cast() { stop(0.0); }

    int count() const { return static_cast<int>(actors_.size()); }
    int process(int a) const { return actors_[a].process; }
    /// Whether the process of an actor has not been killed.
    bool alive(int a) const { return pids_[static_cast<std::size_t>(actors_[a].process)] != 0; }
    /// Kills a process, whatever its threads are doing.
    void kill_process(int p)
    {
        auto& pid = pids_[static_cast<std::size_t>(p)];
        kill(pid, SIGKILL);
        while (waitpid(pid, nullptr, 0) < 0 && errno == EINTR) { }
        pid = 0;
        for (auto& a : actors_)
            if (a.process == p) {
                close(a.fd);
                a.fd = -1;
                a.busy = false;
            }
    }
    bool busy(int a) const { return actors_[a].busy; }

    void tell(int a, const message& m)
    {
        if (actors_[a].busy) pbt::fail("harness", "actor is busy");
        actors_[a].busy = true;
        if (send(actors_[a].fd, &m, sizeof m, MSG_NOSIGNAL) < 0) died(a);
    }

    /// Waits for a reply from one of some actors; returns the actor, or -1 after the time is up.
    int await(const std::vector<int>& who, double seconds, message& m)
    {
        std::vector<pollfd> f;
        for (auto a : who) f.push_back({actors_[a].fd, POLLIN, 0});
        for (;;) {
            const int r = poll(f.data(), f.size(), static_cast<int>(seconds * 1000));
            if (r < 0 && errno == EINTR) continue;
            if (r <= 0) return -1;
            for (std::size_t i = 0; i < f.size(); ++i)
                if (f[i].revents) {
                    if (recv(f[i].fd, &m, sizeof m, 0) != static_cast<ssize_t>(sizeof m)) died(who[i]);
                    actors_[who[i]].busy = false;
                    return who[i];
                }
        }
    }

    /// Asks and waits for the reply.
    message ask(int a, const message& m, const char* what, double seconds = 10)
    {
        tell(a, m);
        message r;
        if (await({a}, seconds, r) < 0) pbt::fail(std::string("stuck:") + what, pbt::cat(what, " by actor ", a, " did not return within ", seconds, " s"));
        return r;
    }

    /// Lets all threads end, within some time, and collects the processes.
    void stop(double seconds = 20)
    {
        for (auto& a : actors_)
            if (a.fd >= 0) {
                close(a.fd);
                a.fd = -1;
            }
        int bad = 0;
        bool stuck = false;
        const auto end = std::chrono::steady_clock::now() + std::chrono::duration<double>(seconds);
        for (auto pid : pids_) {
            if (pid == 0) continue;
            int st = 0;
            for (;;) {
                const auto r = waitpid(pid, &st, WNOHANG);
                if (r == pid) {
                    if (st != 0) bad = st;
                    break;
                }
                if (r < 0 && errno != EINTR) break;
                if (std::chrono::steady_clock::now() >= end) {
                    stuck = true;
                    kill(pid, SIGKILL);
                    waitpid(pid, &st, 0);
                    break;
                }
                usleep(200);
            }
        }
        pids_.clear();
        if (seconds > 0) {
            if (stuck) pbt::fail("stuck:end", "a process did not end");
            if (bad) pbt::fail("actor-died", pbt::cat("a process ended with wait status ", bad));
        }
    }

private:
    struct actor
    {
        int process, thread, fd, peer;
        bool busy;
    };
    [[noreturn]] void died(int a) { pbt::fail("actor-died", pbt::cat("the process of actor ", a, " died")); }
    std::vector<actor> actors_;
    std::vector<pid_t> pids_;
};

} // namespace actors
#endif
