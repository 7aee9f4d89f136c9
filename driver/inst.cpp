// Template instantiation driver: nothing here is ever executed or linked into a program.
// It forces the compiler to generate code for every member of the library's class templates,
// so that the analyses see the templates of /repo's current headers in resolved form.
#include "Defines.h"
#include "Threads.h"
#include "Timeval.h"
#include "LinkedLists.h"
#include "Vector.h"
#include "BitVector.h"
#include "Configuration.h"
#include "Utils.h"
#include "ScalarTypes.h"
#include "F16.h"
#include "Regexp.h"
#include "Reporting.h"
#include "Sockets.h"
#include "Interthread.h"
#include "MemoryLeak.h"
#include "SelfDetect.h"
#include "UnixSignal.h"
#include "Exit.h"

struct SaItem { int v; bool operator>(const SaItem &o) const { return v > o.v; } };
struct SaNode { SaNode *mNext; unsigned mSz; SaNode *next() { return mNext; } void setNext(SaNode *n) { mNext = n; } unsigned size() { return mSz; } };
// PtrList has no totalSize() and the single-link list has no iterators; the extra members only make
// every InterthreadQueue member instantiable over them.
struct SaList : public PtrList<SaItem> { size_t totalSize() const { return 0; } };
struct SaSll : public SingleLinkList<SaNode> { void begin() const {} void end() const {} };
struct SaRc : public Utils::RefCntBase { int v; };
struct SaPod { int a; long b; };
enum SaEnum { saE0, saE1, saE2 };
typedef int SaKey;

template class PtrList<SaItem>;
template class SingleLinkList<SaNode>;
template class SingleLinkList<SingleLinkListNode>;
template class InterthreadQueue<SaItem, SaList>;
template class InterthreadQueue<SaNode, SaSll>;
template class InterthreadQueueWithWait<SaItem>;
template class InterthreadMap1<SaKey, SaItem*>;
template class InterthreadMap<SaKey, SaItem>;
template class InterthreadPriorityQueue<SaItem>;
template class PointerCompare<SaItem>;
template class VectorBase<char>;
template class VectorBase<float>;
template class VectorBase<SaPod>;
template class Vector<float>;
template class Vector<char>;
template class Vector<int>;
template class Utils::RefCntPointer<SaRc>;
template struct Utils::Statistic<int>;
template struct Utils::Statistic<unsigned>;
template struct Utils::Statistic<float>;
template struct Utils::Statistic<double>;
template struct Int_i<7>; template struct Int_i<0>;
template struct Char_i<7>; template struct Int16_i<7>; template struct Int32_i<7>;
template struct UInt_i<7>; template struct UChar_i<7>; template struct UInt16_i<7>; template struct UInt32_i<7>; template struct Size_t_i<7>;
template struct Bool_i<true>; template struct Bool_i<false>;
template struct Enum_z<SaEnum>;
template class Field_i<8,7>; template class Field_z<8,7>; template class Field<8,7>;

// Uses of inline members of ordinary classes, so that code is generated for them.
template<class A> void sa_f16(F16 &a, A b) { a = b; a += b; a -= b; }
void sa_use_f16(F16 &a, const F16 &b, float f, int i)
{
	a.raw() = b.raw(); a.f(); a = b; a = f; a = i;
	a = a + b; a += b; a = a - b; a -= b; a = a * b; a *= b; a = a * f; a *= f; a = a / b; a /= b; a = a / f; a /= f;
	volatile bool r = a > b; r = a < b; r = a == b; r = a > f; r = a < f; r = a == f; (void)r;
}
void sa_use_sync(Semaphore &s, RWLock &l, Thread &t, Timeval &v)
{
	s.post(); s.get(); s.semtry();
	l.wlock(); l.rlock(); l.trywlock(); l.tryrlock(); l.unlock();
	t.join(); v.addMinutes(1); v.elapsed(); v.remaining(); v.passed(); v.now();
}
SaRc *sa_make_rc() { return new SaRc; }
void sa_use_lists(PointerFIFO &q, SingleLinkListNode &n) { q.totalSize(); q.front(); q.size(); n.size(); }
void sa_use_config(ConfigurationKey &k, ConfigurationTableKeyNotFound &e, HashString &a, const HashString &b, const std::string &s, const char *p)
{
	k.updateDefaultValue(s); k.updateDefaultValue(1); k.updateValidValues(s); e.key();
	a = s; a = p; volatile bool r = a == b; r = a < b; r = a > b; (void)r;
}
void sa_use_bits(BitVector &a, const BitVector &b, SoftVector &c, const SoftVector &d, Vector<int> &w)
{
	 a.alias(); a.head(1); a.tail(1); a.zero(); a.dup(b); a.settfb(0, 1);
	size_t pos = 0; a.write0(pos); a.write1(pos);
	c.segment(0, 1); d.segment(0, 1); c.alias(); c.head(1); d.head(1); c.tail(1); d.tail(1); c.unknown(); d.bit(0); d.softbit(0); c.settfb(0, 1);
	w[0] = 1;
	SoftVector c2(d); c = d; BitVector a2(b, b), a3(b); a = b; void (BitVector::*dp)(BitVector &) = &BitVector::dup; (a.*dp)(a2); b.cloneSegment(0, 1); a2.head(1); a3.tail(1);
}
void sa_use_misc(Regexp &r, UDPSocket &u, UDDSocket &v, Utils::RefCntBase &c, Utils::RefCntBase &d, const char *p)
{
	Regexp made(p); made.match(p); r.match(p); u.addressSize(); v.addressSize(); u.source(); v.source();
}
template<class T> void sa_scalar(T &a, T b) { a = b; ++a; a++; --a; a--; a += b; a -= b; (void)&a; }
void sa_use_scalars(Float_z &a, Double_z &b) { sa_scalar<Float_z>(a, a); sa_scalar<Double_z>(b, b); }
void sa_use_multi(Mutex &a, Mutex &b, Mutex &c, int own)
{
	ScopedLockMultiple l1(own, a, b, c); ScopedLockMultiple l2(own, a, b, c, "f", 1);
	ScopedLockMultiple l3(own, a, b); ScopedLockMultiple l4(own, a, b, "f", 1);
}
bool sa_use_groups(LogGroup::Group g, unsigned l) { return gCheckGroupLogLevel(g, l) || gCheckGroupWatchLevel(g, l); }
// Construction and destruction of the pointer containers.
void sa_make_containers()
{
	PointerFIFO fifo; SaSll sll; SaList list;
	InterthreadQueue<SaItem, SaList> q1; InterthreadQueue<SaNode, SaSll> q2; InterthreadQueueWithWait<SaItem> q3;
	InterthreadMap1<SaKey, SaItem*> m1; InterthreadMap<SaKey, SaItem> m2; InterthreadPriorityQueue<SaItem> pq;
}
