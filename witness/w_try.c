/* try/catch/finally clients; ev(n) marks an event, nd() is an arbitrary choice */
#include "raii.h"
void ev(int n); int nd(void); int choose(int n); void ev_str(const char *s); void ev_int(int n);
void w_one(void) {
    ev(1);
    try { ev(2); if (nd()) throw(out_of_memory); ev(3); }
    catch (out_of_memory) { ev(4); ev_str(err); }
    finally { ev(5); } end_try;
    ev(6);
}
static void thrower(int k) { if (k == 1) throw(range_error); if (k == 2) throw(logic_error); if (k == 3) raii_panic("boom"); }
void w_select(void) {
    int k;
    try {
        try { k = choose(4); ev(10 + k); thrower(k); ev(2); }
        catch (range_error) { ev(3); ev_str(err); }
        finally { ev(4); } end_try;
        ev(5);
    } catch (logic_error) { ev(6); ev_str(err); }
    finally { ev(7); } end_try;
    ev(8);
}
void w_any(void) {
    try { int k = choose(4); ev(10 + k); thrower(k); ev(2); } catch_any { ev(3); ev_str(err); } finally { ev(4); } end_try;
    ev(5);
}
void w_if(void) {
    try {
        try { int k = choose(2); ev(10 + k); thrower(k); ev(2); } catch_if { ev(3); ev_str(err); } finally { ev(4); } end_try;
        ev(5);
    } catch_any { ev(6); ev_str(err); } finally { ev(7); } end_try;
    ev(8);
}
void w_if_caught(void) {
    try {
        try { int k = choose(3); ev(10 + k); thrower(k); ev(2); }
        catch_if { ev(3); if (caught(range_error)) ev(4); } finally { ev(5); } end_try;
        ev(6);
    } catch_any { ev(7); ev_str(err); } finally { ev(8); } end_try;
    ev(9);
}
void w_rethrow(void) {
    try {
        try { thrower(1); ev(2); } catch (range_error) { ev(3); rethrow(); ev(4); } finally { ev(5); } end_try;
        ev(6);
    } catch (range_error) { ev(7); ev_str(err); } finally { ev(8); } end_try;
    ev(9);
}
void w_throw_in_catch(void) {
    try {
        try { thrower(1); ev(2); } catch (range_error) { ev(3); throw(logic_error); ev(4); } finally { ev(5); } end_try;
        ev(6);
    } catch (range_error) { ev(7); }
    finally { ev(8); } end_try;
    ev(9);
}
void w_throw_in_catch2(void) {
    try {
        try { thrower(1); ev(2); } catch (range_error) { ev(3); throw(logic_error); ev(4); } finally { ev(5); } end_try;
        ev(6);
    } catch (logic_error) { ev(7); ev_str(err); }
    finally { ev(8); } end_try;
    ev(9);
}
void w_throw_in_finally(void) {
    try {
        try { if (nd()) thrower(1); ev(2); } catch (range_error) { ev(3); } finally { ev(5); throw(logic_error); ev(4); } end_try;
        ev(6);
    } catch (logic_error) { ev(7); ev_str(err); }
    finally { ev(8); } end_try;
    ev(9);
}
void w_sequence(void) {
    int i;
    for (i = 0; i < 3; i++) { try { ev(1); if (nd()) thrower(2); ev(2); } catch (logic_error) { ev(3); } finally { ev(4); } end_try; }
    ev(5);
}
void ev_reset(void);
void w_forever(unsigned n) {
    unsigned i;
    for (i = 0; i < n; i++) { ev_reset(); try { ev(1); if (nd()) thrower(2); ev(2); } catch (logic_error) { ev(3); } finally { ev(4); } end_try; }
    ev_reset();
}
void w_nested_ok(void) {
    try { ev(1);
        try { ev(2); thrower(1); } catch (range_error) { ev(3); } finally { ev(4); } end_try;
        ev(5); thrower(2); ev(6);
    } catch (logic_error) { ev(7); ev_str(err); } finally { ev(8); } end_try;
    ev(9);
}
void w_deep(void) {
    try { ev(1);
        try { ev(2);
            try { ev(3); thrower(2); ev(4); } catch (range_error) { ev(5); } finally { ev(6); } end_try;
            ev(7);
        } catch (range_error) { ev(8); } finally { ev(9); } end_try;
        ev(10);
    } catch (logic_error) { ev(11); ev_str(err); } finally { ev(12); } end_try;
    ev(13);
}
void w_uncaught(void) {
    try { ev(1); thrower(1 + choose(3)); ev(2); } catch (out_of_memory) { ev(3); } finally { ev(4); } end_try;
    ev(5);
}
void w_bare(void) { ev(1); thrower(1); ev(2); }
void w_try_in_catch(void) {
    try { ev(1); thrower(1); }
    catch (range_error) {
        ev(2);
        try { ev(3); thrower(2); ev(4); } catch (logic_error) { ev(5); ev_str(err); } finally { ev(6); } end_try;
        ev(7); ev_str(err);
    } finally { ev(8); } end_try;
    ev(9);
}
void w_try_in_finally(void) {
    try { ev(1); thrower(1); }
    catch (range_error) { ev(2); }
    finally {
        ev(3);
        try { ev(4); thrower(2); ev(5); } catch (logic_error) { ev(6); } finally { ev(7); } end_try;
        ev(8);
    } end_try;
    ev(9);
}
/* an enclosing context of any history: the innermost handler is tried first, the one outside afterwards */
static void inner(int k) {
    try { ev(2); thrower(k); ev(3); } catch (range_error) { ev(4); } finally { ev(5); } end_try;
    ev(6);
}
void w_call(void) {
    try { ev(1); inner(choose(3)); ev(7); } catch_any { ev(8); ev_str(err); } finally { ev(9); } end_try;
    ev(10); inner(0); ev(11);
}
