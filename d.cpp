#include <neolib/task/event.hpp>
#include <iostream>
#include <cassert>
using namespace neolib;
int main(int c, char** v){ services::allocate_service_provider();
 int which = atoi(v[1]);
 if (which==1) { auto e = std::make_unique<event<int>>(); sink s; s = (*e)([&](int){ e.reset(); }); e->trigger(1); std::cout<<"ok1\n"; }
 if (which==3) { { event<int> e; e([](int){}); } { event<int> e; { auto p = e([](int){}); } std::cout << e.has_slots() << "\n"; } std::cout<<"ok3\n"; }
 if (which==2) { { event<int> e; sink s; s = e([&](int){ e.accept(); throw 1; }); try { e.trigger(1);} catch(int) {} } event<int> f; int n=0; sink s; s = f([&](int){++n;}); s += f([&](int){++n;}); auto r = f.trigger(1); std::cout << n << (r==trigger_result::Accepted) << "\n"; }
 if (which==4) { event<int> e; sink s; s = e([](int){}); sink& t = s; s = t; std::cout << s.empty() << e.has_slots() << "\n"; }
 if (which==5) { event<int> e; int n=0; sink s; s = e([&](int){++n; if (n==1) throw 1;}); e.set_trigger_type(trigger_type::Asynchronous); e.trigger(1); e.trigger(2); try { async_event_queue::instance().pump_events(); } catch(int){} async_event_queue::instance().pump_events(); async_event_queue::instance().pump_events(); std::cout << n << "\n"; }
 if (which==6) { event<int> e; e.async_trigger(1); sink s; s = e([](int){}); e.async_trigger(1); std::cout<<"ok6\n"; }
}
