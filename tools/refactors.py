#!/usr/bin/env python3
"""Behaviour-preserving edits of the library; every check has to stay quiet on them.
refactors.py [-t tier] [-n BATCH] [-p C01,C02]     applies each batch to a scratch clone of /repo and runs the checks there"""
import sys, os, subprocess, argparse, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "concurrent/"; P = "primitives/"; I = "includes/"
B = {}
# ---- 1: other loop forms, helpers, reordered independent statements
B["loops"] = [
 (C+"ccsynch.c", "    while (cur->locked) { // spinning\n        synchResched();\n    }\n", "    for (;;) {\n        if (!cur->locked)\n            break;\n        synchResched();\n    }\n"),
 (C+"ccsynch.c", "    next_node->next = NULL;\n    next_node->locked = true;\n    synchNonTSOFence();\n    next_node->completed = false;\n", "    next_node->completed = false;\n    next_node->next = NULL;\n    synchNonTSOFence();\n    next_node->locked = true;\n"),
 (C+"ccsynch.c", "    cur->arg_ret = arg;\n    cur->pid = pid;\n", "    cur->pid = pid;\n    cur->arg_ret = arg;\n"),
 (C+"ccsynch.c", "    while (p->next != NULL && counter < help_bound) {\n        synchStorePrefetch(p->next);\n        counter++;", "    for (; counter < help_bound; counter++) {\n        if (p->next == NULL) break;\n        synchStorePrefetch(p->next);"),
 (C+"dsmsynch.c", "    do { // I surely do it for myself", "    for (;;) { // I surely do it for myself"),
 (C+"dsmsynch.c", "        p = p->next;\n    } while (true);", "        p = p->next;\n    }"),
 (C+"dsmsynch.c", "    mynode->next = NULL;\n    mynode->arg_ret = arg;\n    mynode->pid = pid;\n    mynode->locked = true;\n", "    mynode->locked = true;\n    mynode->pid = pid;\n    mynode->arg_ret = arg;\n    mynode->next = NULL;\n"),
 (C+"dsmsynch.c", "        if (p->next == NULL || p->next->next == NULL || counter >= help_bound)", "        if (p->next == NULL || counter >= help_bound)"),
 (C+"hsynch.c", "    while (cur->locked) // spinning\n        synchResched();\n\n    p = cur;            // I am not been helped\n    if (cur->completed) // I have been helped\n        return cur->arg_ret;\n", "    if (cur->locked) {\n        do {\n            synchResched();\n        } while (cur->locked);\n    }\n    if (cur->completed) // I have been helped\n        return cur->arg_ret;\n    p = cur;            // I am not been helped\n"),
 (C+"oyama.c", "    mynode->next = l->tail;\n    while (!synchCASPTR(&l->tail, mynode->next, mynode)) {  // try to insert node to the announce list\n        OyamaWait();\n        mynode->next = l->tail;\n    }\n", "    for (;;) {\n        OyamaAnnounceNode *head = (OyamaAnnounceNode *)l->tail;\n        mynode->next = head;\n        if (synchCASPTR(&l->tail, head, mynode)) break;\n        OyamaWait();\n    }\n"),
 (C+"oyama.c", "            while (*((volatile bool *)&mynode->completed) == false && *((volatile int32_t *)&l->lock) == LOCKED) {\n                ;\n            }", "            while (l->lock == LOCKED && !mynode->completed)\n                synchResched();"),
 (C+"fc.c", "    do {\n        synchResched();\n        supposed = (FCRequest *)lock->head;\n        synchNonTSOFence();\n        request->next = supposed;\n    } while (!synchCASPTR(&lock->head, supposed, request));", "    while (true) {\n        supposed = (FCRequest *)lock->head;\n        request->next = supposed;\n        synchNonTSOFence();\n        if (synchCASPTR(&lock->head, supposed, request)) return;\n        synchResched();\n    }"),
 (C+"osci.c", "        while (!synchCAS32(&cur->door, _OSCI_DOOR_OPENED, _OSCI_DOOR_INIT))\n            synchResched();", "        for (;;) {\n            if (cur->door == _OSCI_DOOR_OPENED && synchCAS32(&cur->door, _OSCI_DOOR_OPENED, _OSCI_DOOR_INIT)) break;\n            synchResched();\n        }"),
 (C+"osci.c", "    i = 0;\n    while (i < l->fibers_per_thread) {\n        if (p->next->rec[i].completed == false) {\n            p->next->rec[i].locked = false; // Unlock the next one\n            break;\n        }\n        i++;\n    }", "    p = p->next;\n    for (i = 0; i < l->fibers_per_thread; i++)\n        if (!p->rec[i].completed) {\n            p->rec[i].locked = false; // Unlock the next one\n            break;\n        }"),
 (C+"mcs.c", "    while (thread_state->MyNode->locked == true) {\n        synchResched();\n    }\n    synchFullFence();", "    for (; thread_state->MyNode->locked;)\n        synchResched();\n    synchFullFence();"),
 (C+"mcs.c", "    thread_state->MyNode->next = NULL;\n    synchFullFence();\n}\n\nMCSLockStruct", "    synchFullFence();\n}\n\nMCSLockStruct"),
 (C+"clh.c", "    while (l->MyPred[pid]->locked == true) {\n        synchResched();\n    }", "    volatile CLHLockNode *pred = l->MyPred[pid];\n    do {\n        if (!pred->locked) break;\n        synchResched();\n    } while (true);"),
 (C+"clh.c", "    l->MyNode[pid]->locked = false;\n    l->MyNode[pid] = l->MyPred[pid];", "    volatile CLHLockNode *mine = l->MyNode[pid];\n    l->MyNode[pid] = l->MyPred[pid];\n    synchNonTSOFence();\n    mine->locked = false;"),
 (C+"lfuobject.c", "    do {\n        old_state.state = l->state.state;\n        new_state.state = old_state.state;\n        ret_state.state = sfunc(&new_state.state, arg, pid);\n\n        if (synchCAS64(&l->state.state, old_state.state, new_state.state) == true) {\n            break;\n        } else\n            synchBackoffDelay(&th_state->backoff);\n    } while (true);\n", "    for (;; synchBackoffDelay(&th_state->backoff)) {\n        old_state.state = l->state.state;\n        new_state = old_state;\n        ret_state.state = sfunc(&new_state.state, arg, pid);\n        if (synchCAS64(&l->state.state, old_state.state, new_state.state)) break;\n    }\n"),
 (C+"msqueue.c", "        if (last == l->tail) {\n            if (next == NULL) {\n                synchResetBackoff(&th_state->backoff);\n                if (synchCASPTR(&last->next, next, p)) break;\n            } else {\n                synchCASPTR(&l->tail, last, next);\n                synchBackoffDelay(&th_state->backoff);\n            }\n        }\n", "        if (last != l->tail) continue;\n        if (next != NULL) {\n            synchCASPTR(&l->tail, last, next);\n            synchBackoffDelay(&th_state->backoff);\n            continue;\n        }\n        synchResetBackoff(&th_state->backoff);\n        if (synchCASPTR(&last->next, NULL, p)) break;\n"),
 (C+"lfstack.c", "        Node *old_top = (Node *)l->top; // top is volatile\n        n->next = old_top;\n        if (synchCASPTR(&l->top, old_top, n) == true)\n            break;\n        else\n            synchBackoffDelay(&th_state->backoff);\n    } while (true);", "        n->next = (Node *)l->top; // top is volatile\n        if (synchCASPTR(&l->top, n->next, n))\n            return;\n        synchBackoffDelay(&th_state->backoff);\n    } while (true);"),
 (C+"lcrq.c", "    while (true) {\n        uint64_t t = synchFAA64(&rq->tail, 0);\n        uint64_t h = synchFAA64(&rq->head, 0);\n\n        if (synchUnlikely(rq->tail != t)) continue;\n\n        if (h > t) {\n            if (synchCAS64(&rq->tail, t, h)) break;\n            continue;\n        }\n        break;\n    }", "    uint64_t t, h;\n    do {\n        t = rq->tail;\n        h = rq->head;\n        if (rq->tail == t && h <= t) return;\n    } while (h <= t || !synchCAS64(&rq->tail, t, h));"),
 (P+"barrier.c", "        bar->arrive = bar->val_at_set;\n        synchNonTSOFence();\n        bar->leave_flag = true;\n", "        bar->leave_flag = true;\n        synchNonTSOFence();\n        bar->arrive = bar->val_at_set;\n"),
 (P+"barrier.c", "    while (bar->arrive != 0 || bar->leave != 0) {\n        synchResched();\n    }", "    while (bar->arrive != 0)\n        synchResched();\n    while (bar->leave != 0)\n        synchResched();"),
 (P+"backoff.c", "        for (i = 0; i < b->backoff; i++)\n            ;", "        i = b->backoff;\n        while (i > 0)\n            i--;"),
 (P+"pool.c", "    while (num_objs > 0) {\n        if (num_objs > pool->cur_block->metadata.cur_entry) {", "    for (; num_objs > 0;) {\n        if (pool->cur_block->metadata.cur_entry < num_objs) {"),
 (P+"uthreads.c", "    do {\n        currentFiber = (currentFiber + 1) % MAX_FIBERS;\n    } while (FIBER_LIST[currentFiber].active == false);\n    switch_to_fiber(&FIBER_LIST[prev_fiber], &FIBER_LIST[currentFiber]);\n    if (", "    for (currentFiber = (currentFiber + 1) % MAX_FIBERS; !FIBER_LIST[currentFiber].active;)\n        currentFiber = (currentFiber + 1) % MAX_FIBERS;\n    switch_to_fiber(&FIBER_LIST[prev_fiber], &FIBER_LIST[currentFiber]);\n    if ("),
]
# ---- 2: helpers extracted, structural changes
B["helpers"] = [
 (C+"ccsynch.c", "static const int CCSYNCH_HELP_FACTOR = 10;\n", "static const int CCSYNCH_COMBINE = 10;\n\nstatic CCSynchNode *serve(volatile CCSynchNode *p, RetVal (*sfunc)(void *, ArgVal, int), void *state) {\n    CCSynchNode *n = (CCSynchNode *)p->next;\n    RetVal r = sfunc(state, p->arg_ret, p->pid);\n\n    p->arg_ret = r;\n    synchNonTSOFence();\n    p->completed = true;\n    synchNonTSOFence();\n    p->locked = false;\n    return n;\n}\n"),
 (C+"ccsynch.c", "CCSYNCH_HELP_FACTOR * l->nthreads", "l->nthreads * CCSYNCH_COMBINE"),
 (C+"ccsynch.c", "        tmp_next = p->next;\n        p->arg_ret = sfunc(state, p->arg_ret, p->pid);\n        synchNonTSOFence();\n        p->completed = true;\n        synchNonTSOFence();\n        p->locked = false;\n        p = tmp_next;", "        tmp_next = serve(p, sfunc, state);\n        p = tmp_next;"),
 (C+"dsmsynch.c", "    if (p->next == NULL) {\n        if (l->Tail == p && synchCASPTR(&l->Tail, p, NULL) == true) return mynode->arg_ret;\n        while (p->next == NULL) {\n            synchResched();\n        }\n    }\n    synchNonTSOFence();\n    p->next->locked = false;", "    if (p->next == NULL) {\n        if (synchCASPTR(&l->Tail, p, NULL)) return mynode->arg_ret;\n        do {\n            synchResched();\n        } while (p->next == NULL);\n    }\n    DSMSynchNode *heir = (DSMSynchNode *)p->next;\n    synchNonTSOFence();\n    heir->locked = false;"),
 (C+"dsmsynch.c", "    st_thread->toggle = 1 - st_thread->toggle;", "    st_thread->toggle ^= 1;"),
 (C+"hsynch.c", "        tmp_next = p->next;\n        p->arg_ret = sfunc(state, p->arg_ret, p->pid);", "        tmp_next = p->next;\n        RetVal result = sfunc(state, p->arg_ret, p->pid);\n        p->arg_ret = result;"),
 (C+"hsynch.c", "        if (tmp_next->next == NULL && synchGetMachineModel() != INTEL_X86_MACHINE)\n            synchFullFence();\n", ""),
 (C+"oyama.c", "                    tmp_next = (OyamaAnnounceNode *)p->next;\n                    p->arg_ret = sfunc(p->arg_ret, p->pid);\n                    p->completed = true;\n                    p = (OyamaAnnounceNode *)tmp_next;", "                    RetVal result = sfunc(p->arg_ret, p->pid);\n                    tmp_next = (OyamaAnnounceNode *)p->next;\n                    p->arg_ret = result;\n                    synchNonTSOFence();\n                    p->completed = true;\n                    p = tmp_next;"),
 (C+"fc.c", "    request->val = arg;\n    synchNonTSOFence();\n    request->pending = true;\n    synchStoreFence();\n\n    while (true) {\n        if (lock->lock == 0 && synchCAS64(&lock->lock, 0, 1)) {\n            break;\n        } else {\n", "    request->val = arg;\n    synchNonTSOFence();\n    request->pending = true;\n    synchFullFence();\n\n    while (!(lock->lock == 0 && synchCAS64(&lock->lock, 0, 1))) {\n        {\n"),
 (C+"osci.c", "    do { // Try to acquire the combining point\n        if (l->current_node[group].ptr == NULL) synchCASPTR(&l->current_node[group].ptr, NULL, mynode);\n        cur = l->current_node[group].ptr;\n    } while (cur == NULL);\n", "    while ((cur = l->current_node[group].ptr) == NULL)  // Try to acquire the combining point\n        synchCASPTR(&l->current_node[group].ptr, NULL, mynode);\n"),
 (C+"mcs.c", "    prev = synchSWAP(&l->Tail, (void *)thread_state->MyNode);\n\n    if (prev != NULL) {\n        l->Tail->locked = true;\n        synchNonTSOFence();\n        thread_state->MyNode->locked = true;\n", "    thread_state->MyNode->locked = false;\n    prev = synchSWAP(&l->Tail, (void *)thread_state->MyNode);\n\n    if (prev != NULL) {\n        thread_state->MyNode->locked = true;\n"),
 (C+"msqueue.c", "            if (first == last) {\n                if (next == NULL)\n                    return EMPTY_QUEUE;\n                synchCASPTR(&l->tail, last, next);\n                synchBackoffDelay(&th_state->backoff);\n            } else {\n                value = next->val;\n                if (synchCASPTR(&l->head, first, next)) break;\n                synchBackoffDelay(&th_state->backoff);\n            }\n", "            if (first != last) {\n                value = next->val;\n                if (synchCASPTR(&l->head, first, next)) return value;\n            } else if (next == NULL) {\n                return EMPTY_QUEUE;\n            } else {\n                synchCASPTR(&l->tail, last, next);\n            }\n            synchBackoffDelay(&th_state->backoff);\n"),
 (C+"lfstack.c", "    synchResetBackoff(&th_state->backoff);\n    do {\n        Node *old_top = (Node *)l->top;\n        if (old_top == NULL)\n            return EMPTY_STACK;\n        if (synchCASPTR(&l->top, old_top, old_top->next))\n            return old_top->val;\n        else\n            synchBackoffDelay(&th_state->backoff);\n    } while (true);", "    Node *old_top;\n\n    synchResetBackoff(&th_state->backoff);\n    while ((old_top = (Node *)l->top) != NULL) {\n        Node *second = (Node *)old_top->next;\n        if (synchCASPTR(&l->top, old_top, second))\n            return old_top->val;\n        synchBackoffDelay(&th_state->backoff);\n    }\n    return EMPTY_STACK;"),
 (C+"clhhash.c", "static inline RetVal serialOperations(void *h, ArgVal dummy_arg, int pid) {\n", "static HashNode *lookup(HashNode *cur, int64_t key) {\n    while (cur != NULL && cur->key != key)\n        cur = cur->next;\n    return cur;\n}\n\nstatic inline RetVal serialOperations(void *h, ArgVal dummy_arg, int pid) {\n"),
 (C+"clhhash.c", "    } else { // SEARCH\n        bool found = false;\n        HashNode *cur = top;\n\n        while (cur != NULL && found == false) {\n            if (cur->key == key) {\n                found = true;\n                break;\n            }\n            cur = cur->next;\n        }\n        return found;\n    }", "    } else { // SEARCH\n        return lookup(top, key) != NULL;\n    }"),
 (C+"clhhash.c", "    args.op = HT_SEARCH;\n    args.key = key;\n    args.value = INT_MIN;\n    args.cell = hash_func(hash, key);\n    args.node = synchAllocObj(&th_state->pool);\n", "    args.op = HT_SEARCH;\n    args.key = key;\n    args.value = 0;\n    args.cell = hash_func(hash, key);\n    args.node = NULL;\n"),
 (C+"dsmhash.c", "        HashNode *cur = top, *prev = top;\n\n        while (cur != NULL && found == false) {\n            if (cur->key == key) {\n                found = true;\n                break;\n            }\n            if (cur != top)\n                prev = prev->next;\n            cur = cur->next;\n        }\n        if (found) {\n            if (top != cur)\n                prev->next = cur->next;\n            else\n                cells[arg.cell].ptr = cur->next;\n        }", "        HashNode *cur, *prev = NULL;\n\n        for (cur = top; cur != NULL; prev = cur, cur = cur->next)\n            if (cur->key == key) {\n                found = true;\n                if (prev != NULL)\n                    prev->next = cur->next;\n                else\n                    cells[arg.cell].ptr = cur->next;\n                break;\n            }"),
 (C+"sim.c", "    memcpy(&dest->state, &src->state, SimObjectStateSize(dest->applied.nthreads) - CACHE_LINE_SIZE);", "    size_t bytes = SimObjectStateSize(dest->applied.nthreads) - CACHE_LINE_SIZE;\n    memcpy(&dest->state, &src->state, bytes);"),
 (C+"sim.c", "    sim_struct->announce[pid] = arg;                                                    // sim_struct->announce the operation\n    synchNonTSOFence();\n    mybank = TVEC_GET_BANK_OF_BIT(pid, sim_struct->nthreads);\n    TVEC_REVERSE_BIT(&th_state->my_bit, pid);\n", "    mybank = TVEC_GET_BANK_OF_BIT(pid, sim_struct->nthreads);\n    TVEC_REVERSE_BIT(&th_state->my_bit, pid);\n    sim_struct->announce[pid] = arg;                                                    // sim_struct->announce the operation\n    synchNonTSOFence();\n"),
 (C+"sim.c", "        if (old_sp.raw_data == sim_struct->sp.raw_data && synchCAS64(", "        if (synchCAS64("),
 (C+"simstack.c", "    while (items > 0) {\n        Node *node = head;\n        head = (Node *)head->next;\n        items--;\n        synchRecycleObj(pool, node);\n    }", "    Node *node, *next;\n    for (node = head; items-- > 0; node = next) {\n        next = (Node *)node->next;\n        synchRecycleObj(pool, node);\n    }"),
 (C+"simqueue.c", "                node = lsp_data->head->next;\n                if (node == NULL) DeqLinkQueue(queue, lsp_data);\n                node = lsp_data->head->next;\n                if (node != NULL) {\n                    lsp_data->ret[proc_id] = node->val;\n                    lsp_data->head = (Node *)node;\n                } else lsp_data->ret[proc_id] = EMPTY_QUEUE;\n", "                node = lsp_data->head->next;\n                if (node == NULL) {\n                    DeqLinkQueue(queue, lsp_data);\n                    node = lsp_data->head->next;\n                }\n                if (node == NULL) {\n                    lsp_data->ret[proc_id] = EMPTY_QUEUE;\n                } else {\n                    lsp_data->head = (Node *)node;\n                    lsp_data->ret[proc_id] = node->val;\n                }\n"),
 (C+"lcrq.c", "            // Solo enqueue\n            thread_state->nrq->tail = 1, thread_state->nrq->array[0].val = arg, thread_state->nrq->array[0].idx = 0;\n", "            // Solo enqueue\n            RingQueue *fresh = thread_state->nrq;\n            fresh->array[0].idx = 0;\n            fresh->array[0].val = arg;\n            fresh->tail = 1;\n"),
 (C+"ccqueue.c", "    node->next = NULL;\n    node->val = arg;\n    st->last->next = node;\n", "    node->val = arg;\n    node->next = NULL;\n    synchNonTSOFence();\n    st->last->next = node;\n"),
 (C+"hstack.c", "            RetVal ret = node->val;\n            st->top = st->top->next;\n", "            RetVal ret;\n            st->top = node->next;\n            ret = node->val;\n"),
 (P+"barrier.c", "inline void synchBarrierLeave(SynchBarrier *bar) {\n    synchFAA32(&bar->arrive, -1);\n    synchFAA32(&bar->leave, -1);\n}", "static void dropOut(volatile int32_t *counter) {\n    synchFAA32(counter, -1);\n}\n\ninline void synchBarrierLeave(SynchBarrier *bar) {\n    dropOut((volatile int32_t *)&bar->arrive);\n    dropOut((volatile int32_t *)&bar->leave);\n}"),
 (P+"pool.c", "            ret = synchAllocObj(pool);\n", "            return synchAllocObj(pool);\n"),
 (P+"pool.c", "            ret = (void *)&pool->cur_block->heap[(pool->cur_block->metadata.cur_entry) * (pool->obj_size)];\n            pool->cur_block->metadata.free_entries -= 1;\n            pool->cur_block->metadata.cur_entry += 1;\n", "            SynchPoolBlock *b = pool->cur_block;\n            ret = (void *)(b->heap + (size_t)b->metadata.cur_entry++ * pool->obj_size);\n            b->metadata.free_entries--;\n"),
 (P+"backoff.c", "        b->backoff <<= b->backoff_shift_bits;\n        b->backoff += b->backoff_addend;\n        b->backoff &= b->backoff_cap;\n", "        unsigned next = (b->backoff << b->backoff_shift_bits) + b->backoff_addend;\n        b->backoff = next & b->backoff_cap;\n"),
 (P+"fastrand.c", "    return low + (long)(((double)high - low) * ((double)synchFastRandom() / (SYNCH_RAND_MAX + 1.0)));", "    double span = (double)high - low;\n    double unit = (double)synchFastRandom() / (SYNCH_RAND_MAX + 1.0);\n    return low + (long)(span * unit);"),
 (P+"bench_args.c", "        case 'h':\n            printHelp(argv[0]);\n            exit(EXIT_SUCCESS);\n            break;\n        case ':':\n            printHelp(argv[0]);\n            exit(EXIT_FAILURE);\n            break;\n        case '?':\n", "        case 'h':\n            printHelp(argv[0]);\n            exit(EXIT_SUCCESS);\n        default:\n"),
 (P+"bench_args.c", "bench_args->max_work = atoi(optarg);", "bench_args->max_work = (uint32_t)strtol(optarg, NULL, 10);"),
 (P+"threadtools.c", "        synchBarrierSet(&bar, nthreads + 1);\n        for (i = 0; i < nthreads - 1; i++) {", "        synchBarrierSet(&bar, 1 + nthreads);\n        for (i = 0; i + 1 < nthreads; ++i) {"),
 (P+"threadtools.c", "    if (__noop_resched) {\n        synchPause();\n    } else if (__uthread_sched) {\n        synchFiberYield();\n    } else {\n        sched_yield();\n    }", "    if (!__noop_resched) {\n        if (__uthread_sched)\n            synchFiberYield();\n        else\n            sched_yield();\n    } else synchPause();"),
 (P+"uthreads.c", "    slot = 1;\n    while (FIBER_LIST[slot].active)\n        slot++;\n", "    for (slot = 1; slot < MAX_FIBERS; slot++)\n        if (!FIBER_LIST[slot].active) break;\n"),
 (I+"tvec.h", "    i = bit >> _TVEC_DIVISION_SHIFT_BITS_;\n    offset = bit & _TVEC_MODULO_BITS_;\n    tv1->cell[i] |= ((bitword_t)1) << offset;", "    i = bit / _TVEC_BIWORD_SIZE_;\n    offset = bit % _TVEC_BIWORD_SIZE_;\n    tv1->cell[i] = tv1->cell[i] | ((bitword_t)1 << offset);"),
 (I+"tvec.h", "    memcpy(dest->cell, src->cell, _TVEC_VECTOR_SIZE(dest->nthreads));", "    int i;\n\n    LOOP(dest->cell[i] = src->cell[i], i, dest->tvec_cells);"),
]
def main():
    ap = argparse.ArgumentParser(); ap.add_argument("-t", default="quick"); ap.add_argument("-n"); ap.add_argument("-p"); ap.add_argument("-k", action="store_true", help="keep the tree"); ap.add_argument("-b", action="store_true", help="run the stable tests")
    a = ap.parse_args()
    for n in ([a.n] if a.n else B):
        T = "/tmp/refactor.%s" % n
        subprocess.run("rm -rf %s; git clone -q /repo %s" % (T, T), shell=True, check=True)
        for f, old, new in B[n]:
            p = T + "/libconcurrent/" + f; t = open(p, newline="").read()
            if "\r\n" in t: old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if t.count(old) != 1: print("EDIT", "NOT FOUND" if t.count(old) == 0 else "AMBIGUOUS", f, repr(old[:70])); continue
            open(p, "w", newline="").write(t.replace(old, new))
        for p in (a.p.split(",") if a.p else ["C%02d" % i for i in range(1, 28)]):
            t0 = time.time()
            e = dict(os.environ, MC_REPO=T, VERIF_TIER=a.t, VERIF_SEED="1", MC_EVIDENCE="/tmp/refactor.ev")
            r = subprocess.run(["python3", V + "/mc/check.py", p, a.t], cwd=V, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            print("%-10s %s %s %4.0fs" % (n, p, "quiet" if r.returncode == 0 else "ALARM rc=%d" % r.returncode, time.time() - t0), flush=True)
            if r.returncode: print(r.stdout[-2500:], flush=True)
        if not a.k: subprocess.run(["rm", "-rf", T])
if __name__ == "__main__": main()
