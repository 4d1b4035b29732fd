// Controlled scheduler and race detector for code compiled with -fsanitize=thread, whose runtime this replaces.
//
// The threads of an execution are real threads, of which one runs at a time.  Every execution is a fresh process, so that
// everything that happens on first use happens again.  A schedule is the list of the points at which the running thread is
// preempted; what happens at the other points is that it goes on.  Every execution is checked for accesses to the same
// byte by two threads, one of them a write, which nothing orders.
#pragma once
#include <functional>
#include <string>
#include <vector>

namespace ts
{
    struct Run
    {
        int points = 0;                // points at which another thread could have been chosen
        int points_after = 0;          // of which after the last preemption
        std::string error;             // a race, a deadlock, a crash
        std::vector<std::string> results;
        std::string log;
        unsigned long long accesses = 0;
    };
    using Op = std::function<std::string()>;
    // fine: every function entry is a point; otherwise only synchronisation and system calls are
    Run run(const std::vector<Op> &threads, const std::vector<int> &preempt, bool fine, bool log, const Op &before = nullptr, const Op &after = nullptr);
    void note(const std::string &s);
}
