// Threads for harnesses: deterministic scheduling with a choice (an input named "switch") at every lock operation
// and thread end. Between such points threads share nothing that is not ordered, or the race check speaks up, so
// these are all the interleavings that can differ. Included by vprt.c (under irsym) and native.c (replays).
#define VP_NT 4
static struct {
    void (*f)(void *);
    void *arg;
    int state; // 0 none, 1 alive, 2 ended
    const void *wait;
    int shared;
} vp_th[VP_NT];
static int vp_nth = 1, vp_cur;
static struct {
    const void *m;
    int owner, depth, readers[VP_NT];
} vp_mx[16];

static int vp_mutex(const void *m) {
    int fr = -1;
    for (int i = 0; i < 16; i++) {
        if (vp_mx[i].m == m) return i;
        if (!vp_mx[i].m && fr < 0) fr = i;
    }
    vp_assert(fr >= 0, "scheduler: too many locks held");
    vp_mx[fr].m = m;
    vp_mx[fr].owner = -1;
    vp_mx[fr].depth = 0;
    for (int t = 0; t < VP_NT; t++) vp_mx[fr].readers[t] = 0;
    return fr;
}
static void vp_mutex_idle(int i) {
    int r = vp_mx[i].owner >= 0;
    for (int t = 0; t < VP_NT; t++) r |= vp_mx[i].readers[t];
    if (!r) vp_mx[i].m = 0;
}
static int vp_free_for(const void *m, int shared) {
    for (int i = 0; i < 16; i++)
        if (vp_mx[i].m == m) {
            if (vp_mx[i].owner >= 0) return 0;
            for (int t = 0; t < VP_NT && !shared; t++)
                if (vp_mx[i].readers[t]) return 0;
        }
    return 1;
}
static int vp_runnable(int t) {
    if (t == 0 && vp_nth > 1) { // waits for the others
        for (int i = 1; i < vp_nth; i++)
            if (vp_th[i].state == 1) return 0;
        return 1;
    }
    if (t && vp_th[t].state != 1) return 0;
    return !vp_th[t].wait || vp_free_for(vp_th[t].wait, vp_th[t].shared);
}
static void vp_go(int t) {
    if (t == vp_cur) return;
    vp_cur = t;
    vp_prim_switch(t);
}
static int vp_choose(int self) { // self: the running thread may continue
    int c[VP_NT], n = 0;
    for (int t = 0; t < vp_nth; t++)
        if (t != vp_cur && vp_runnable(t)) c[n++] = t;
    if (self && vp_runnable(vp_cur)) c[n++] = vp_cur;
    vp_assert(n > 0, "deadlock: every thread waits for a lock");
    for (int i = 0; i + 1 < n; i++) {
        unsigned char b;
        vp_symbolic(&b, 1, "switch");
        if (vp_pick(b & 1)) return c[i];
    }
    return c[n - 1];
}
static void vp_point(void) {
    if (vp_nth > 1) vp_go(vp_choose(1));
}
static int vp_kind(const void *m) { return ((const int *)m)[4] & 3; } // glibc: 1 recursive
static void vp_take(void *m, int shared) {
    vp_point();
    while (!vp_free_for(m, shared)) {
        vp_th[vp_cur].wait = m;
        vp_th[vp_cur].shared = shared;
        vp_go(vp_choose(0));
    }
    vp_th[vp_cur].wait = 0;
    int i = vp_mutex(m);
    if (shared) vp_mx[i].readers[vp_cur]++;
    else vp_mx[i].owner = vp_cur, vp_mx[i].depth = 1;
    vp_prim_acquire(m);
    if (!shared) vp_prim_acquire((const char *)m + 1);
}
static int vp_lock(void *m, int shared, int recursive) {
    vp_prim_race(0);
    int i = vp_mutex(m);
    if (recursive && vp_mx[i].owner == vp_cur) vp_mx[i].depth++;
    else {
        vp_mutex_idle(i);
        vp_take(m, shared);
    }
    vp_prim_race(1);
    return 0;
}
static int vp_trylock(void *m, int shared, int recursive) {
    vp_prim_race(0);
    int r = 0, i = vp_mutex(m);
    if (recursive && vp_mx[i].owner == vp_cur) vp_mx[i].depth++;
    else {
        vp_mutex_idle(i);
        vp_point();
        if (vp_free_for(m, shared)) vp_take(m, shared);
        else {
            r = 16; // EBUSY; let somebody else make progress
            for (int t = 1; t < vp_nth; t++)
                if (t != vp_cur && vp_runnable(t)) {
                    vp_go(vp_choose(0));
                    break;
                }
        }
    }
    vp_prim_race(1);
    return r;
}
static int vp_unlock(void *m, int rw) {
    vp_prim_race(0);
    int i = vp_mutex(m);
    if (vp_mx[i].owner == vp_cur) {
        if (!--vp_mx[i].depth) {
            vp_prim_release(m);
            vp_mx[i].owner = -1;
        }
    } else {
        vp_assert(rw && vp_mx[i].readers[vp_cur] > 0, "unlock of a mutex this thread does not hold");
        vp_mx[i].readers[vp_cur]--;
        vp_prim_release((const char *)m + 1);
    }
    vp_mutex_idle(i);
    vp_point();
    vp_prim_race(1);
    return 0;
}
static void vp_thread_main(void) {
    int t = vp_cur;
    vp_prim_acquire(&vp_th[t]);
    vp_prim_race(1);
    vp_th[t].f(vp_th[t].arg);
    vp_prim_race(0);
    vp_th[t].state = 2;
    vp_prim_release(&vp_th[t]);
    vp_go(vp_choose(0));
}
void vp_spawn(void (*f)(void *), void *arg) { // started by vp_join
    vp_prim_race(0);
    int t = vp_nth++;
    vp_th[t].f = f;
    vp_th[t].arg = arg;
    vp_th[t].state = 1;
    vp_th[t].wait = 0;
    vp_prim_spawn(t, vp_thread_main);
    vp_prim_release(&vp_th[t]);
    vp_prim_race(1);
}
void vp_join(void) { // runs the threads to their ends
    if (vp_nth == 1) return;
    vp_prim_race(0);
    vp_go(vp_choose(0));
    for (int t = 1; t < vp_nth; t++) {
        vp_prim_acquire(&vp_th[t]);
        vp_th[t].state = 0;
    }
    vp_nth = 1;
    vp_prim_race(1);
}
