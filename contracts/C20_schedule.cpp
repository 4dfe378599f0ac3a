// Task schedule
#include "common.hpp"
#include "rbtree.hpp"
#include "app_schedule.hpp"
using namespace spec;
namespace {
const char* T[3] = {"write_checkpoint", "write_diagnostics", "time_series"};
const char* DUE[3] = {"due 0", "due 1", "due 2"};
const char* LAST[3] = {"last 0", "last 1", "last 2"};
const char* COUNT[3] = {"count 0", "count 1", "count 2"};
struct app { mara::schedule_t schedule; double t = 0; };
mara::schedule_t::task_t some_task(int k) { return {T[k], int(vc_int(COUNT[k], 0, 1000000)), real(LAST[k]), vc_bool(DUE[k])}; }
mara::schedule_t some_schedule() { mara::schedule_t s; for (int k = 0; k < 3; ++k) s.insert(some_task(k)); return s; }
}
VC_PROOF(tasks_marked)
{
    app a;
    a.schedule = some_schedule();
    double t = real("t"), dt[2] = {pos("interval 0"), pos("interval 1")};
    auto s = mara::mark_tasks_in(a, t, {{T[0], dt[0]}, {T[2], dt[1]}});
    for (int k = 0; k < 3; ++k)
    {
        auto before = a.schedule.at(T[k]), after = s.at(T[k]);
        bool due = k == 0 ? t - before.last_performed >= dt[0] : k == 2 ? t - before.last_performed >= dt[1] : false;
        double step = k == 0 ? dt[0] : dt[1];
        vc_assert("due", after.is_due == (before.is_due || due));
        vc_assert_eq("last performed", after.last_performed, before.last_performed + (due ? step : 0));
        vc_assert("number of times performed", after.num_times_performed == before.num_times_performed);
    }
}
VC_PROOF(cadence)
{
    // between two steps of the application not longer than the interval, no
    // performance is lost or repeated: the next one is due within an interval
    app a;
    a.schedule = some_schedule();
    double t0 = real("t0"), dt = pos("dt"), interval = pos("interval");
    auto last = a.schedule.last_performed(T[0]);
    vc_assume(last <= t0 && t0 < last + interval && dt <= interval);
    auto s = mara::mark_tasks_in(a, t0 + dt, {{T[0], interval}});
    auto now = s.last_performed(T[0]);
    vc_assert("not in the future", now <= t0 + dt);
    vc_assert("within the last interval", t0 + dt < now + interval);
    vc_assert("marked when an interval has passed", s.is_due(T[0]) == (a.schedule.is_due(T[0]) || now != last));
}
namespace {
struct journal { mara::schedule_t schedule; int n = 0; int done[4] = {}; };
journal note(const journal& j, int k) { auto r = mara::complete_task_in(j, T[k]); r.done[r.n++] = k; return r; }
}
VC_PROOF(tasks_run)
{
    journal j;
    j.schedule = some_schedule();
    std::vector<std::pair<std::string, std::function<journal(const journal&)>>> tasks;
    int order[3] = {2, 0, 1};
    for (int k : order) tasks.push_back({T[k], [k] (const journal& x) { return note(x, k); }});
    auto r = mara::run_scheduled_tasks(j, tasks);
    int n = 0;
    for (int k : order)
    {
        auto before = j.schedule.at(T[k]), after = r.schedule.at(T[k]);
        if (before.is_due)
        {
            vc_assert("performed, in order", n < r.n && r.done[n] == k);
            ++n;
        }
        vc_assert("no longer due", ! after.is_due);
        vc_assert("counted", after.num_times_performed == before.num_times_performed + (before.is_due ? 1 : 0));
        vc_assert_eq("last performed is kept", after.last_performed, before.last_performed);
    }
    vc_assert("nothing else is performed", r.n == n);
    vc_assert("the given state is unchanged", j.n == 0);
}
VC_PROOF(tasks_created)
{
    auto s = some_schedule();
    auto before = s;
    double amount = real("amount");
    int k = vc_choose("task", 0, 2);
    switch (vc_choose("operation", 0, 4))
    {
        case 0: s.create(T[k]); vc_assert("created", s.at(T[k]).num_times_performed == 0 && s.last_performed(T[k]) == 0 && ! s.is_due(T[k])); break;
        case 1: s.create_and_mark_as_due(T[k]); vc_assert("created", s.num_times_performed(T[k]) == 0 && s.last_performed(T[k]) == 0 && s.is_due(T[k])); break;
        case 2: s.mark_as_due(T[k], amount); vc_assert("due", s.is_due(T[k]) && s.num_times_performed(T[k]) == before.num_times_performed(T[k])); vc_assert_eq("last", s.last_performed(T[k]), before.last_performed(T[k]) + amount); break;
        case 3: s.mark_as_completed(T[k]); vc_assert("completed", ! s.is_due(T[k]) && s.num_times_performed(T[k]) == before.num_times_performed(T[k]) + 1 && s.last_performed(T[k]) == before.last_performed(T[k])); break;
        case 4: { auto t = some_task((k + 1) % 3); t.name = T[k]; s.insert(t); vc_assert("inserted", s.is_due(T[k]) == t.is_due && s.last_performed(T[k]) == t.last_performed && s.num_times_performed(T[k]) == t.num_times_performed); break; }
    }
    vc_assert("name", s.at(T[k]).name == T[k]);
    vc_assert("number of tasks", s.size() == 3 && s.count(T[k]) == 1);
    for (int i = 0; i < 3; ++i)
        if (i != k)
            vc_assert("other tasks are unchanged", s.is_due(T[i]) == before.is_due(T[i]) && s.last_performed(T[i]) == before.last_performed(T[i]) && s.num_times_performed(T[i]) == before.num_times_performed(T[i]));
}
VC_PROOF(unknown_tasks_are_refused)
{
    auto s = some_schedule();
    app a;
    a.schedule = s;
    int refused = 0;
    auto attempt = [&] (auto f) { try { f(); } catch (const std::out_of_range&) { ++refused; } };
    attempt([&] { s.at("nothing"); });
    attempt([&] { s.is_due("nothing"); });
    attempt([&] { s.last_performed("nothing"); });
    attempt([&] { s.num_times_performed("nothing"); });
    attempt([&] { s.mark_as_due("nothing"); });
    attempt([&] { s.mark_as_completed("nothing"); });
    attempt([&] { mara::complete_task_in(a, "nothing"); });
    attempt([&] { mara::mark_tasks_in(a, 100.0, {{"nothing", 0.5}}); });
    vc_assert("refused", refused == 8);
    vc_assert("not created", s.count("nothing") == 0 && s.size() == 3);
}
