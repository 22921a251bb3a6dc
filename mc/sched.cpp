// The schedulers: ThreadScheduler with its worker under every interleaving within the bound (C05), LoopScheduler and
// ScopedScheduler under every sequence of operations (C06).
#include "env.h"
#include "mc.h"
#include "sim.h"

#include "srtc/scheduler.h"

#include <algorithm>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <thread>
#include <vector>

using namespace srtc;

namespace
{

using Ms = std::chrono::milliseconds;

// ----------------------------------------------------------------------------------------------- C05

enum Body {
    Empty,
    Busy, // takes 1.5 ms
    SubmitOther,
    CancelSelf,
    UpdateSelf,
    CancelFirst,
    UpdateFirst,
    Captures, // what its function has captured cancels the first task and submits another when destroyed
    Drop, // drops the application's reference to the scheduler
    Bodies
};

const char* const kBodies[] = { "empty",      "busy",         "submits",       "cancels itself",
                                "updates itself", "cancels first", "updates first", "captures a guard",
                                "drops the scheduler" };

struct Logical {
    int id = 0;
    Body body = Empty;
    std::weak_ptr<Task> handle;
    std::shared_ptr<Task> held; // the application may hold on to it
    // When it has to run, if it has to
    bool pending = false;
    int64_t dueLo = 0;
    int64_t dueHi = 0;
    int64_t known = 0; // since when
    bool running = false;
    int64_t endedAt = -1;
    int runs = 0;
    int allowed = 0; // starts at most
    int inUpdate = 0;
    int inCancel = 0;
    bool fuzzy = false; // operations on it overlapped: either may have come first
    bool oldRun = false; // updated while running: the handle is that of the next run
};

struct Thr {
    mc::Ctx& ctx;
    std::shared_ptr<ThreadScheduler> shared;
    ScopedScheduler* scoped = nullptr; // over the thread scheduler
    std::vector<std::unique_ptr<Logical>> tasks;
    bool destroyed = false;
    int dropping = 0;
    bool dropped = false;
    int64_t lastBusyEnd = 0;
    int inRun = -1;
    int steps = 0;

    explicit Thr(mc::Ctx& c)
        : ctx(c)
    {
    }

    Logical* add(Body body)
    {
        auto t = std::make_unique<Logical>();
        t->id = static_cast<int>(tasks.size());
        t->body = body;
        tasks.push_back(std::move(t));
        return tasks.back().get();
    }

    void observe()
    {
        uint64_t h = 7;
        for (const auto& t : tasks) {
            h = mc::mix(h, static_cast<uint64_t>(t->pending) * 4 + static_cast<uint64_t>(t->running) * 2 + t->fuzzy);
            h = mc::mix(h, static_cast<uint64_t>(t->runs * 64 + t->allowed * 8 + t->body));
            h = mc::mix(h, static_cast<uint64_t>(t->pending ? t->dueLo - env::nowUs() : 0));
        }
        ctx.state(mc::mix(h, static_cast<uint64_t>(dropped) * 2 + destroyed));
    }

    void onRun(Logical& t)
    {
        {
            const sim::Quiet q;
            const auto now = env::nowUs();
            ctx.log("    [%d] task %d (%s) starts at %lld us", sim::self(), t.id, kBodies[t.body], (long long)now);
            ctx.check(!destroyed, "C05", "run-after-destroy", "task %d starts after the scheduler was destroyed", t.id);
            ctx.check(inRun < 0, "C05", "two-at-once", "task %d starts while task %d is running", t.id, inRun);
            t.runs += 1;
            ctx.check(t.runs <= t.allowed, "C05", "ran-twice", "task %d started %d times, submitted or updated %d times", t.id,
                      t.runs, t.allowed);
            if (!t.fuzzy && t.inUpdate == 0) {
                ctx.check(t.pending, "C05", "ran-after-cancel",
                          "task %d starts although it is not due to: it was cancelled or ran before", t.id);
                ctx.check(now >= t.dueLo, "C05", "early", "task %d starts at %lld us, due at %lld", t.id, (long long)now,
                          (long long)t.dueLo);
                const auto latest = std::max({ t.dueHi, lastBusyEnd, t.known }) + 1;
                ctx.check(now <= latest, "C05", "late", "task %d starts at %lld us, was due at %lld and the thread was free", t.id,
                          (long long)now, (long long)latest);
                for (const auto& o : tasks) {
                    if (o.get() != &t && o->pending && !o->fuzzy && o->inUpdate == 0 && o->inCancel == 0 &&
                        o->dueHi < t.dueLo && o->known < now) {
                        ctx.check(false, "C05", "order", "task %d due at %lld us starts before task %d due at %lld", t.id,
                                  (long long)t.dueLo, o->id, (long long)o->dueHi);
                    }
                }
            }
            t.pending = false;
            t.running = true;
            inRun = t.id;
            observe();
        }
        switch (t.body) {
        case Busy:
            sim::sleepUs(1500);
            break;
        case SubmitOther:
            submit(0, Empty);
            break;
        case CancelSelf:
            cancel(t);
            break;
        case UpdateSelf:
            if (t.runs < 2) {
                update(t, 1);
            }
            break;
        case CancelFirst:
            cancel(*tasks[0]);
            break;
        case UpdateFirst:
            if (t.runs < 2) {
                update(*tasks[0], 1);
            }
            break;
        case Drop:
            drop();
            break;
        default:
            break;
        }
        sim::point("end of task");
        {
            const sim::Quiet q;
            t.running = false;
            t.oldRun = false;
            inRun = -1;
            lastBusyEnd = env::nowUs();
            t.endedAt = env::nowUs();
            ctx.log("    [%d] task %d ends", sim::self(), t.id);
            observe();
        }
    }

    void submit(int delay, Body body, bool hold = false)
    {
        const Op one(*this);
        std::shared_ptr<ThreadScheduler> s;
        Scheduler* target;
        Logical* t;
        int64_t now;
        {
            const sim::Quiet q;
            s = shared;
            if (!s) {
                return;
            }
            target = scoped ? static_cast<Scheduler*>(scoped) : s.get();
            now = env::nowUs();
            t = add(body);
            ctx.log("    [%d] submit task %d (%s) in %d ms", sim::self(), t->id, kBodies[body], delay);
            t->pending = true;
            t->dueLo = now + delay * 1000;
            t->dueHi = INT64_MAX / 2;
            t->known = INT64_MAX / 2;
            t->allowed = 1;
            step();
        }
        std::shared_ptr<Captured> captured;
        if (body == Captures) {
            captured = std::make_shared<Captured>();
            captured->w = this;
        }
        auto handle = target->submit(Ms(delay), __FILE__, __LINE__, [this, t, captured] { onRun(*t); });
        captured.reset();
        {
            const sim::Quiet q;
            if (t->inUpdate == 0 && t->inCancel == 0 && !t->fuzzy) {
                t->dueHi = env::nowUs() + delay * 1000;
                t->known = env::nowUs();
            }
            t->handle = handle;
            sim::publish(t);
            if (hold) {
                t->held = handle.lock();
            }
        }
        s.reset();
    }

    struct Captured {
        Thr* w = nullptr;
        ~Captured()
        {
            if (w->shared) {
                w->submit(0, Empty);
                w->cancel(*w->tasks[0]);
            }
        }
    };

    // Operations may hold a reference for a moment: the last one to end ends the scheduler
    struct Op {
        Thr& w;
        explicit Op(Thr& o)
            : w(o)
        {
            const sim::Quiet q;
            w.outstanding += 1;
        }
        ~Op()
        {
            const sim::Quiet q;
            w.outstanding -= 1;
            if (w.outstanding == 0 && w.dropped && !w.destroyed) {
                w.gone();
            }
        }
    };

    void cancel(Logical& t, bool viaHelper = false)
    {
        const Op one(*this);
        std::shared_ptr<Task> h;
        const auto calledAt = env::nowUs();
        const bool own = t.running && inRun == t.id && selfIsWorker();
        {
            const sim::Quiet q;
            sim::observe(&t);
            h = t.held ? t.held : t.handle.lock();
            ctx.log("    [%d] cancel task %d%s", sim::self(), t.id, h ? "" : " (gone)");
            step();
            if (t.known == INT64_MAX / 2) {
                return; // submit has not returned yet
            }
            if (t.inUpdate || t.inCancel) {
                t.fuzzy = true;
            }
            t.inCancel += 1;
        }
        if (viaHelper) {
            std::weak_ptr<Task> w = h;
            h.reset();
            Task::cancelHelper(w);
        } else if (h) {
            h->cancel();
            h.reset();
        }
        {
            const sim::Quiet q;
            ctx.log("    [%d] cancel of task %d returned", sim::self(), t.id);
            t.inCancel -= 1;
            ctx.check(t.body == Captures || env::nowUs() <= std::max(calledAt, t.endedAt), "C05", "cancel-late", "cancel of task %d, called at %lld us, returns at %lld us; the task ended at %lld us",
                      t.id, (long long)calledAt, (long long)env::nowUs(), (long long)t.endedAt);
            if (!t.fuzzy) {
                ctx.check(own || !t.running || t.oldRun, "C05", "cancel-returned-early", "cancel of task %d returned while it was running",
                          t.id);
                t.pending = false;
            }
            observe();
        }
    }

    void update(Logical& t, int delay)
    {
        const Op one(*this);
        std::shared_ptr<Task> h;
        int64_t now;
        {
            const sim::Quiet q;
            sim::observe(&t);
            h = t.held ? t.held : t.handle.lock();
            ctx.log("    [%d] update task %d to %d ms%s", sim::self(), t.id, delay, h ? "" : " (gone)");
            step();
            if (!h) {
                return;
            }
            if (t.inUpdate || t.inCancel) {
                t.fuzzy = true;
            }
            t.inUpdate += 1;
            t.allowed += 1;
            t.oldRun = t.running;
            now = env::nowUs();
        }
        const auto runsBefore = t.runs;
        auto handle = h->update(Ms(delay));
        {
            const sim::Quiet q;
            t.inUpdate -= 1;
            const auto started = t.runs - runsBefore;
            t.held.reset();
            t.handle = handle;
            sim::publish(&t);
            const auto gone = handle.expired();
            ctx.log("    [%d] update of task %d returned%s", sim::self(), t.id, gone ? ", nothing" : "");
            if (started > 0 || (t.pending && t.dueLo <= env::nowUs())) {
                // It was due, and may be about to start: the old or the new one
                t.fuzzy = true;
            } else if (gone && !shared) {
                t.pending = false;
            } else {
                t.pending = true;
                t.dueLo = now + delay * 1000;
                t.dueHi = env::nowUs() + delay * 1000;
                t.known = env::nowUs();
            }
            observe();
        }
    }

    bool selfIsWorker() const
    {
        return sim::self() == workerId;
    }

    int workerId = 1;

    void drop()
    {
        std::shared_ptr<ThreadScheduler> s;
        {
            const sim::Quiet q;
            s = std::move(shared);
            shared.reset();
            if (!s) {
                return;
            }
            dropping += 1;
            ctx.log("    [%d] drop the scheduler", sim::self());
        }
        s.reset();
        {
            const sim::Quiet q;
            dropping -= 1;
            dropped = true;
            ctx.log("    [%d] the scheduler is dropped", sim::self());
            if (outstanding == 0) {
                gone();
            }
        }
    }

    int outstanding = 0; // other threads which may hold a reference for a moment

    void gone()
    {
        destroyed = true;
        for (const auto& t : tasks) {
            t->pending = false;
            ctx.check(!t->running || selfIsWorker(), "C05", "destroyed-while-running",
                      "the scheduler was destroyed while task %d was running", t->id);
        }
    }

    void step()
    {
        steps += 1;
        ctx.step();
    }

    void finish()
    {
        // Everything still due has to run, in time
        if (shared) {
            sim::sleepUs(20000);
            const sim::Quiet q;
            if (shared) {
                for (const auto& t : tasks) {
                    if (!t->fuzzy && t->inUpdate == 0 && t->inCancel == 0) {
                        ctx.check(!t->pending || dropped || t->dueHi >= env::nowUs(), "C05", "never-ran", "task %d, due at %lld us, did not run", t->id,
                                  (long long)t->dueLo);
                    }
                }
            }
        }
        drop();
        sim::preemptions(false);
        sim::waitFor([] { return sim::liveThreads() == 0; }, 10000000);
        const sim::Quiet q;
        uint64_t h = 3;
        for (const auto& t : tasks) {
            h = mc::mix(h, static_cast<uint64_t>(t->runs * 8 + t->body));
        }
        ctx.outcome(h);
        for (const auto& t : tasks) {
            t->held.reset();
            t->handle.reset();
        }
    }
};

sim::Config simConfig(bool chooseOnBlock)
{
    sim::Config config;
    config.preempt = true;
    config.chooseOnBlock = chooseOnBlock;
    return config;
}

int64_t startTime()
{
    return 1000000;
}

// Two tasks, and every sequence of operations of the application
void owner(mc::Ctx& ctx)
{
    env::reset(ctx.seed());
    env::quiet();
    sim::Guard guard(ctx, simConfig(false));
    Thr w(ctx);
    const int n = ctx.thorough() ? 4 : 3;
    sim::preemptions(true);
    w.shared = std::make_shared<ThreadScheduler>("test");
    for (int i = 0; i < n && w.shared; i += 1) {
        // What to do
        const int submits = Bodies + 4;
        const int op = ctx.choose(i == 0 ? submits : submits + 9, "op");
        if (op < Bodies) {
            w.submit(0, static_cast<Body>(op));
        } else if (op < submits) {
            static const Body kLater[] = { Empty, Busy, UpdateFirst, CancelFirst };
            w.submit(2, kLater[op - Bodies]);
        } else {
            switch (op - submits) {
            case 0:
                w.cancel(*w.tasks.front());
                break;
            case 1:
                w.cancel(*w.tasks.back(), true);
                break;
            case 2:
                w.update(*w.tasks.front(), 0);
                break;
            case 3:
                w.update(*w.tasks.front(), 3);
                break;
            case 4:
                w.update(*w.tasks.back(), 1);
                break;
            case 5:
                sim::sleepUs(1000);
                break;
            case 6:
                sim::sleepUs(2000);
                break;
            case 7:
                w.submit(1, Empty, true);
                break;
            case 8:
                w.drop();
                break;
            default:
                break;
            }
        }
    }
    w.finish();
}

// A second application thread: cancelling, updating and dropping at the same time
void two(mc::Ctx& ctx)
{
    env::reset(ctx.seed());
    env::quiet();
    sim::Guard guard(ctx, simConfig(true));
    Thr w(ctx);
    static const Body kFirst[] = { Empty, Busy, UpdateSelf, SubmitOther, CancelSelf };
    const int delay = ctx.choose(2, "delay");
    const auto body = kFirst[ctx.choose(5, "body")];
    const int hold = ctx.choose(2, "hold");
    const int opMain = ctx.choose(5, "main");
    const int opOther = ctx.choose(4, "other");
    sim::preemptions(true);
    w.shared = std::make_shared<ThreadScheduler>("test");
    w.submit(delay, body, hold != 0);
    w.submit(1, Empty);
    std::thread other([&] {
        switch (opOther) {
        case 0:
            w.cancel(*w.tasks[0]);
            break;
        case 1:
            w.update(*w.tasks[0], 1);
            break;
        case 2:
            w.cancel(*w.tasks[1], true);
            break;
        case 3:
            sim::sleepUs(1000);
            w.cancel(*w.tasks[0]);
            break;
        default:
            break;
        }
    });
    switch (opMain) {
    case 0:
        w.cancel(*w.tasks[0]);
        break;
    case 1:
        w.update(*w.tasks[0], 0);
        break;
    case 2:
        w.update(*w.tasks[1], 2);
        break;
    case 3:
        w.drop();
        break;
    case 4:
        w.submit(0, Empty);
        break;
    default:
        break;
    }
    other.join();
    w.finish();
}

// A scope over the thread scheduler, destroyed by the application while its tasks run
void scope(mc::Ctx& ctx)
{
    env::reset(ctx.seed());
    env::quiet();
    sim::Guard guard(ctx, simConfig(false));
    Thr w(ctx);
    const int n = ctx.thorough() ? 3 : 2;
    sim::preemptions(true);
    w.shared = std::make_shared<ThreadScheduler>("test");
    auto scoped = std::make_unique<ScopedScheduler>(w.shared);
    w.scoped = scoped.get();
    for (int i = 0; i < n; i += 1) {
        static const Body kBody[] = { Empty, Busy, SubmitOther, CancelSelf, UpdateSelf, CancelFirst, UpdateFirst };
        const int op = ctx.choose(i == 0 ? 14 : 21, "op");
        if (op < 14) {
            w.submit(op / 7, kBody[op % 7]);
        } else {
            switch (op - 14) {
            case 0:
                w.cancel(*w.tasks.front());
                break;
            case 1:
                w.cancel(*w.tasks.back(), true);
                break;
            case 2:
                w.update(*w.tasks.front(), 0);
                break;
            case 3:
                w.update(*w.tasks.front(), 3);
                break;
            case 4:
                w.update(*w.tasks.back(), 1);
                break;
            case 5:
                sim::sleepUs(1000);
                break;
            case 6:
                sim::sleepUs(2000);
                break;
            default:
                break;
            }
        }
    }
    ctx.log("    [0] destroy the scope");
    scoped.reset();
    {
        const sim::Quiet q;
        ctx.log("    [0] the scope is destroyed");
        w.scoped = nullptr;
        w.gone();
    }
    w.finish();
}

// ----------------------------------------------------------------------------------------------- C06

enum LoopBody {
    LNothing,
    LSubmitNow,
    LSubmitLater,
    LCancelSelf,
    LCancelNext, // the task after it
    LUpdateSelf,
    LUpdateNext,
    LDestroyScope, // the first one
    LCaptures,     // what its function captured uses the scheduler when destroyed
    LBodies
};

const char* const kLoopBodies[] = { "nothing",     "submits now",    "submits later",      "cancels itself", "cancels the next",
                                    "moves itself", "moves the next", "destroys scope 1", "captures a guard" };

struct LoopTask {
    int id = 0;
    int where = 0; // 0: the scheduler itself, else the scope
    LoopBody body = LNothing;
    std::weak_ptr<Task> handle;
    bool pending = false;
    bool running = false;
    int64_t due = 0;
    int order = 0;
    bool inUpdate = false;
    int inRun = -1; // submitted or moved by a task within this run
    int runs = 0;
};

struct LoopWorld {
    mc::Ctx& ctx;
    std::shared_ptr<LoopScheduler> loop;
    std::unique_ptr<ScopedScheduler> scope[2];
    std::vector<std::unique_ptr<LoopTask>> tasks;
    int order = 0;
    int run = 0;
    bool running = false;

    explicit LoopWorld(mc::Ctx& c)
        : ctx(c)
    {
    }

    Scheduler* at(int where)
    {
        return where == 0 ? static_cast<Scheduler*>(loop.get()) : scope[where - 1].get();
    }

    struct Captured {
        LoopWorld* w = nullptr;
        LoopTask* t = nullptr;
        ~Captured()
        {
            w->submit(t->where, 1, LNothing);
            if (!w->tasks[0]->inUpdate) {
                w->cancel(*w->tasks[0]);
            }
        }
    };

    void submit(int where, int delay, LoopBody body)
    {
        const auto s = at(where);
        if (!s) {
            return;
        }
        auto own = std::make_unique<LoopTask>();
        const auto t = own.get();
        t->id = static_cast<int>(tasks.size());
        t->where = where;
        t->body = body;
        tasks.push_back(std::move(own));
        ctx.log("  submit task %d (%s) at %d in %d ms, now %lld", t->id, kLoopBodies[body], where, delay, (long long)env::nowUs());
        ctx.step();
        std::shared_ptr<Captured> captured;
        if (body == LCaptures) {
            captured = std::make_shared<Captured>();
            captured->w = this;
            captured->t = t;
        }
        schedule(*t, delay);
        std::function<void()> f = [this, t, captured] { onRun(*t); };
        captured.reset();
        t->handle = delay == 0 ? s->Scheduler::submit(__FILE__, __LINE__, f) : s->submit(Ms(delay), __FILE__, __LINE__, f);
        f = nullptr;
    }

    void schedule(LoopTask& t, int delay)
    {
        t.pending = true;
        t.due = env::nowUs() + delay * 1000;
        order += 1;
        t.order = order;
        t.inRun = running ? run : -1;
    }

    void cancel(LoopTask& t, bool direct = false)
    {
        ctx.log("  cancel task %d", t.id);
        ctx.step();
        const auto s = at(t.where);
        if (direct && s) {
            auto h = t.handle.lock();
            t.pending = false;
            if (h) {
                s->cancel(h);
            }
        } else {
            auto h = t.handle;
            t.pending = false;
            Task::cancelHelper(h);
        }
    }

    void update(LoopTask& t, int delay)
    {
        auto h = t.handle.lock();
        ctx.log("  move task %d to %d ms from now%s", t.id, delay, h ? "" : " (gone)");
        ctx.step();
        if (!h) {
            ctx.check(!t.pending, "C06", "handle-lost", "task %d is due, but its handle has expired", t.id);
            return;
        }
        const auto was = t.pending;
        schedule(t, delay);
        t.inUpdate = true;
        const auto r = h->update(Ms(delay));
        t.inUpdate = false;
        if (r.expired()) {
            ctx.check(!was && !t.running, "C06", "update-lost", "moving task %d, which was %s, lost it", t.id,
                      was ? "pending" : "running");
            t.pending = false;
        }
        t.handle = r;
    }

    void destroyScope(int i)
    {
        if (!scope[i]) {
            return;
        }
        ctx.log("  destroy scope %d", i + 1);
        ctx.step();
        for (const auto& t : tasks) {
            if (t->where == i + 1) {
                t->pending = false;
            }
        }
        const auto own = std::move(scope[i]);
    }

    LoopTask* next(const LoopTask& t)
    {
        return t.id + 1 < static_cast<int>(tasks.size()) ? tasks[static_cast<size_t>(t.id + 1)].get() : nullptr;
    }

    void onRun(LoopTask& t)
    {
        const auto now = env::nowUs();
        ctx.log("  task %d (%s) runs at %lld us", t.id, kLoopBodies[t.body], (long long)now);
        ctx.check(running, "C06", "outside-run", "task %d runs outside run()", t.id);
        ctx.check(t.pending, "C06", "not-due", "task %d runs, but it ran already, was cancelled, or its scope destroyed", t.id);
        ctx.check(t.due <= now, "C06", "early", "task %d, due at %lld us, runs at %lld us", t.id, (long long)t.due,
                  (long long)now);
        for (const auto& o : tasks) {
            if (o->pending && o.get() != &t && o->inRun != run &&
                (o->due < t.due || (o->due == t.due && o->order < t.order))) {
                ctx.check(false, "C06", "order", "task %d, due at %lld us, runs before task %d, due at %lld us and submitted %s",
                          t.id, (long long)t.due, o->id, (long long)o->due, o->order < t.order ? "before" : "after");
            }
        }
        t.pending = false;
        t.running = true;
        t.runs += 1;
        switch (t.body) {
        case LSubmitNow:
            submit(t.where, 0, LNothing);
            break;
        case LSubmitLater:
            submit(t.where, 1, LNothing);
            break;
        case LCancelSelf:
            cancel(t);
            break;
        case LCancelNext:
            if (const auto n = next(t)) {
                cancel(*n);
            }
            break;
        case LUpdateSelf:
            if (t.runs < 3) {
                update(t, t.runs == 1 ? 1 : 0);
            }
            break;
        case LUpdateNext:
            if (const auto n = next(t)) {
                update(*n, 1);
            }
            break;
        case LDestroyScope:
            destroyScope(0);
            break;
        default:
            break;
        }
        t.running = false;
    }

    void runLoop()
    {
        run += 1;
        ctx.log(" run %d at %lld us", run, (long long)env::nowUs());
        ctx.step();
        running = true;
        loop->run();
        running = false;
        for (const auto& t : tasks) {
            ctx.check(!t->pending || t->due > env::nowUs() || t->inRun == run, "C06", "missed",
                      "task %d, due at %lld us, did not run at %lld us", t->id, (long long)t->due, (long long)env::nowUs());
        }
    }

    void checkTimeout()
    {
        int64_t first = INT64_MAX;
        for (const auto& t : tasks) {
            if (t->pending) {
                first = std::min(first, t->due);
            }
        }
        const auto ms = loop->getTimeoutMillis(777);
        if (first == INT64_MAX) {
            ctx.check(ms == 777, "C06", "timeout-default", "with no tasks the wait is %d ms, not the given one", ms);
            return;
        }
        const auto left = first - env::nowUs();
        const auto us = static_cast<int64_t>(ms) * 1000;
        ctx.check(ms >= 0 && us <= std::max<int64_t>(left, 0), "C06", "oversleep", "the wait is %d ms, the next task is due in %lld us", ms,
                  (long long)left);
        ctx.check(us > left - 1000 || us >= 2147483000000ll, "C06", "undersleep", "the wait is %d ms, the next task is due in %lld us", ms,
                  (long long)left);
    }

    void observe()
    {
        uint64_t h = 5;
        for (const auto& t : tasks) {
            h = mc::mix(h, static_cast<uint64_t>(t->pending) + static_cast<uint64_t>(t->where) * 2 + static_cast<uint64_t>(t->body) * 8 +
                               static_cast<uint64_t>(t->runs) * 256);
            h = mc::mix(h, static_cast<uint64_t>(t->pending ? t->due - env::nowUs() : 0));
        }
        ctx.state(mc::mix(h, (scope[0] ? 1u : 0u) + (scope[1] ? 2u : 0u)));
    }

    void finish()
    {
        // Whatever is left
        for (int i = 0; i < 8; i += 1) {
            env::advanceUs(700);
            runLoop();
            checkTimeout();
        }
        uint64_t h = 9;
        for (const auto& t : tasks) {
            h = mc::mix(h, static_cast<uint64_t>(t->runs * 16 + t->body));
        }
        ctx.outcome(h);
        destroyScope(0);
        destroyScope(1);
        // Captures go with the tasks
        for (const auto& t : tasks) {
            if (t->pending) {
                cancel(*t);
            }
        }
        loop.reset();
    }
};

void loopOps(mc::Ctx& ctx, int n, bool wide)
{
    env::reset(ctx.seed());
    env::quiet();
    env::setUs(5000);
    LoopWorld w(ctx);
    w.loop = std::make_shared<LoopScheduler>();
    w.scope[0] = std::make_unique<ScopedScheduler>(w.loop);
    w.scope[1] = std::make_unique<ScopedScheduler>(w.loop);
    for (int i = 0; i < n; i += 1) {
        // Submitting
        static const int kDelays[] = { 0, 1, 3 };
        const int submits = wide ? 3 * LBodies * 2 : 2 * LBodies;
        const int op = ctx.choose(i == 0 ? submits : submits + 13, "op");
        if (op < submits) {
            const auto body = static_cast<LoopBody>(op % LBodies);
            const auto k = op / LBodies;
            if (wide) {
                w.submit(k % 2, kDelays[k / 2], body);
            } else {
                w.submit(1, k, body);
            }
        } else {
            switch (op - submits) {
            case 0:
                w.runLoop();
                break;
            case 1:
                env::advanceUs(400);
                w.runLoop();
                break;
            case 2:
                env::advanceUs(1000);
                w.runLoop();
                break;
            case 3:
                env::advanceUs(3000);
                w.runLoop();
                break;
            case 4:
                env::advanceUs(1000);
                break;
            case 5:
                w.cancel(*w.tasks.front());
                break;
            case 6:
                w.cancel(*w.tasks.back(), true);
                break;
            case 7:
                w.update(*w.tasks.front(), 0);
                break;
            case 8:
                w.update(*w.tasks.front(), 2);
                break;
            case 9:
                w.update(*w.tasks.back(), 1);
                break;
            case 10:
                w.destroyScope(0);
                break;
            case 11:
                w.submit(2, 1, LSubmitLater);
                break;
            case 12:
                w.cancel(*w.tasks.front(), true);
                break;
            default:
                break;
            }
        }
        w.checkTimeout();
        w.observe();
    }
    w.finish();
}

void loopWide(mc::Ctx& ctx)
{
    loopOps(ctx, ctx.thorough() ? 4 : 3, true);
}

void loopDeep(mc::Ctx& ctx)
{
    loopOps(ctx, ctx.thorough() ? 5 : 4, false);
}

// Delays of all magnitudes
void loopDelays(mc::Ctx& ctx)
{
    env::reset(ctx.seed());
    env::quiet();
    LoopWorld w(ctx);
    w.loop = std::make_shared<LoopScheduler>();
    w.scope[0] = std::make_unique<ScopedScheduler>(w.loop);
    static const int64_t kDelays[] = { 0,         1,          2,          999,        1000,       60000,          86400000,
                                       2147483646, 2147483647, 2147483648, 3000000000, 4294967295, 4294967296ll, 10000000000ll };
    const int where = ctx.choose(2, "where");
    std::vector<std::pair<int64_t, int>> want; // (due, order)
    std::vector<int> ran;
    const int n = 3;
    for (int i = 0; i < n; i += 1) {
        const auto delay = kDelays[ctx.choose(14, "delay")];
        env::advanceUs(ctx.choose(2, "advance") * 300);
        want.emplace_back(env::nowUs() + delay * 1000, i);
        w.at(where)->submit(Ms(delay), __FILE__, __LINE__, [&ran, i] { ran.push_back(i); });
        ctx.step();
    }
    std::sort(want.begin(), want.end());
    size_t done = 0;
    while (done < want.size()) {
        const auto left = want[done].first - env::nowUs();
        const auto ms = w.loop->getTimeoutMillis(777);
        ctx.check(ms >= 0 && ms * 1000ll <= std::max<int64_t>(left, 0), "C06", "oversleep", "the wait is %d ms, the next task is due in %lld us",
                  ms, (long long)left);
        ctx.check(ms * 1000ll > left - 1000 || ms >= 2147483646, "C06", "undersleep",
                  "the wait is %d ms, the next task is due in %lld us", ms, (long long)left);
        // Just before, and then in time
        if (left > 0) {
            env::advanceUs(left - 1);
            w.loop->run();
            ctx.check(ran.size() == done, "C06", "early", "a task ran before it was due");
            env::advanceUs(1);
        }
        w.loop->run();
        while (done < want.size() && want[done].first <= env::nowUs()) {
            done += 1;
        }
        ctx.check(ran.size() == done, "C06", "missed", "%zu tasks ran, %zu were due", ran.size(), done);
        for (size_t i = 0; i < done && i < ran.size(); i += 1) {
            ctx.check(ran[i] == want[i].second, "C06", "order", "task %d ran in place of task %d", ran[i], want[i].second);
        }
        ctx.state(mc::mix(static_cast<uint64_t>(done), static_cast<uint64_t>(left)));
    }
    ctx.outcome(static_cast<uint64_t>(ran[0] * 100 + ran[1] * 10 + ran[2]));
    w.scope[0].reset();
    w.loop.reset();
}

} // namespace

void mc::registerScenarios(bool)
{
    mc::add("owner", { "C05" }, 1, 2, owner);
    mc::add("two", { "C05" }, 2, 3, two);
    mc::add("scope", { "C05" }, 2, 3, scope);
    mc::add("loop-wide", { "C06" }, 0, 0, loopWide);
    mc::add("loop-deep", { "C06" }, 0, 0, loopDeep);
    mc::add("loop-delays", { "C06" }, 0, 0, loopDelays);
}
