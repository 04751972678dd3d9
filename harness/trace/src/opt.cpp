#include <coroutine>
template<class T> struct Task { struct promise_type { Task get_return_object(){return {};} std::suspend_always initial_suspend(){return {};} std::suspend_never final_suspend() noexcept{return {};} void return_value(T){} void unhandled_exception(){} std::suspend_always yield_value(T){return {};} }; };
template<class T> struct V { T* d; int n; ~V(); T& operator[](int i){return d[i];} template<class F> void each(F f){ for(int i=0;i<n;i++) f(d[i]); } };
template<class T> V<T>::~V(){ delete[] d; }
Task<int> co(int n){ for(int i=0;i<n;i++) co_yield i; co_return 3; }
namespace { struct Q { virtual ~Q(){} virtual int f()=0; }; struct R : Q { int f() override {return 2;} }; }
extern int g(int); static int st = g(1); thread_local int tl = g(2); int a1[100], a2[100];
int h(Q*q){ try { return q->f()+g(st+tl); } catch(int){ return 1; } catch(...) { throw; } }
int rec1(int n); int rec2(int n){ return n<1?0:rec1(n-1)+g(n); } int rec1(int n){ return n<2?1:rec2(n-1)*g(n); }
void loops(float*__restrict x, float*y, int n){ for(int i=0;i<n;i++){ x[i]=y[i]*2+1; for(int j=0;j<n;j++) x[j]+=y[i*n+j]; } while(n--) { if(n&1) a1[n%100]++; else a2[n%100]=a1[n%100]; } switch(n){case 1: g(1);break;case 2:g(4);break;case 3:g(9);break;case 4:g(2);break; case 5: g(7);} }
int main(){ V<int> v{new int[9],9}; int s=0; v.each([&](int&x){ s+=x; }); R r; co(4); float f[9],k[9]; loops(f,k,3); return h(&r)+s+rec1(5)+[]<class T>(T t){return t;}(3); }
