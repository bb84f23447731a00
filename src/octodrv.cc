// Drives the OCTOPUSSY dispatcher: reads a scenario (stdin), runs it with real WPs and threads, and writes an event log.
#include <OCTOPUSSY/Octopussy.h>
#include <OCTOPUSSY/Dispatcher.h>
#include <OCTOPUSSY/WorkProcess.h>
#include <OCTOPUSSY/Gateways.h>
#include <OCTOPUSSY/OctopussyConfig.h>
#include <DMI/Record.h>
#include <DMI/NumArray.h>
#include <DMI/BOIO.h>
#include <DMI/Exception.h>
#include <thread>
#include <atomic>
#include <memory>
#include <mutex>
#include <vector>
#include <deque>
#include <map>
#include <sstream>
#include <iostream>
#include <fstream>
#include <unistd.h>
#include <fcntl.h>
using namespace DMI; using namespace Octopussy; using std::string;

static std::atomic<long> SEQ(0), SENT(0), DONE(0);
static std::atomic<int> UID(0);
static int UIDBASE=0, UIDMAX=1<<30;
static long seq() { return SEQ.fetch_add(1,std::memory_order_relaxed); }
struct Log { std::vector<string> v; };
static std::mutex logs_mx; static std::vector<Log*> logs;
static Log & mylog() { static thread_local Log *l = 0;
  if( !l ) { l = new Log; std::lock_guard<std::mutex> g(logs_mx); logs.push_back(l); } return *l; }
static void put(const std::ostringstream &os) { string s = os.str(); for( auto &c : s ) if( c=='\n' ) c='|'; mylog().v.push_back(s); }
#define LOG(x) do { std::ostringstream os_; os_.precision(17); os_<<x; put(os_); } while(0)
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }

static int reg = AtomicID::registerId(-21001,"VfA")+AtomicID::registerId(-21002,"VfB")+AtomicID::registerId(-21003,"VfC")
  +AtomicID::registerId(-21004,"VfMsg")+AtomicID::registerId(-21005,"VfX")+AtomicID::registerId(-21006,"VfY")
  +AtomicID::registerId(-21007,"VfZ")+AtomicID::registerId(-21008,"VfTo")+AtomicID::registerId(-21009,"VfData")
  +AtomicID::registerId(-21010,"VfNote");
static const AtomicID CLS[] = { AtomicID(-21001),AtomicID(-21002),AtomicID(-21003) };
static const AtomicID AMSG(-21004), ADATA(-21009), ANOTE(-21010);

struct Rule { HIID mask,id; char kind; string arg; int pri,left; };
struct Tmo { int ms; HIID id; int oneshot,after; std::shared_ptr<std::atomic<int> > fired; };
struct Sub { HIID id; int scope; };

static int fillbyte(int uid,int i) { return (uid*131+i*7+(i>>8)*13)&0xff; }

class VfWP : public WorkProcess
{
 public:
  int idx,nthr,kind; std::vector<Sub> subs; std::vector<Rule> rules; std::vector<Tmo> tmos;
  int pfd[2]; long inbytes; std::atomic<long> inread; int mutate; std::atomic<bool> stopped,gone;
  std::mutex mx; std::map<int,int> holds; std::deque<Message::Ref> kept; int workus;
  VfWP(int i,int cls,int nt,int k) : WorkProcess(CLS[cls]),idx(i),nthr(nt),kind(k),inbytes(0),inread(0),mutate(0),stopped(false),gone(false),workus(0)
    { setAutoCatch(k&1); pfd[0]=pfd[1]=-1; if( k&2 ) disablePolling(); }
  void init() { WorkProcess::init();
    for( auto &s : subs ) subscribe(s.id,s.scope);
    LOG("A "<<idx<<' '<<address().toString()); }
  bool start() { WorkProcess::start();
    for( int i=0; i<nthr; i++ ) createWorker();
    for( auto &t : tmos ) { LOG("Ta "<<seq()<<' '<<idx<<' '<<t.id.toString()<<' '<<now());
      addTimeout(Timestamp(t.ms/1000,(t.ms%1000)*1000),t.id,t.oneshot?EV_ONESHOT:0); }
    if( inbytes ) { if( pipe(pfd) ) abort(); fcntl(pfd[0],F_SETFL,O_NONBLOCK); addInput(pfd[0],EV_FDREAD); }
    return false; }
  void stop() { stopped=true; WorkProcess::stop(); }
  int timeout(const HIID &id) { LOG("T "<<seq()<<' '<<idx<<' '<<id.toString()<<' '<<now());
    for( auto &t : tmos ) if( t.id==id ) { int f = ++*t.fired; if( !t.oneshot && f>=t.after ) return Message::CANCEL; }
    return Message::ACCEPT; }
  int input(int fd,int flags) { char b[512]; ssize_t n;
    if( flags&EV_FDREAD ) while( (n=read(fd,b,sizeof b))>0 ) { string s; for(int i=0;i<n;i++) if( (unsigned char)b[i] != fillbyte(idx,inread+i) ) { LOG("IBAD "<<idx<<' '<<inread+i); break; }
      inread += n; LOG("I "<<seq()<<' '<<idx<<' '<<n); }
    return Message::ACCEPT; }
  static Message * make(const HIID &id,int hold,int uid,int kind,int size,int pri) {
    HIID full = id|AtomicID(hold)|AtomicID(uid);
    if( kind==1 ) { Record *r = new Record; ObjRef ro(r); LoShape sh(size>0?size:1); NumArray *a = new NumArray(Tpint,sh); ObjRef ra(a);
        int *p = static_cast<int*>(a->getDataPtr()); for(int i=0;i<sh[0];i++) p[i]=uid*3+i; r->add(HIID(ADATA),ra); return new Message(full,ro,0,pri); }
    if( kind==2 ) { SmartBlock *b = new SmartBlock(size); unsigned char *p=(unsigned char*)b->data(); for(int i=0;i<size;i++) p[i]=fillbyte(uid,i); BlockRef br(b); return new Message(full,br,0,pri); }
    if( kind==3 ) { Record *r = new Record; ObjRef ro(r); LoShape sh(size>0?size:1); NumArray *a = new NumArray(Tpint,sh); ObjRef ra(a);
        int *p = static_cast<int*>(a->getDataPtr()); for(int i=0;i<sh[0];i++) p[i]=uid*3+i; r->add(HIID(ADATA),ra);
        Message *m = new Message(full,ro,0,pri); SmartBlock *b = new SmartBlock(size); unsigned char *q=(unsigned char*)b->data(); for(int i=0;i<size;i++) q[i]=fillbyte(uid,i); BlockRef br(b); m->operator<<=(br); return m; }
    return new Message(full,pri); }
  static string check(const Message &m,int uid,int kind,int size) {
    if( kind==1||kind==3 ) { const Record *r = dynamic_cast<const Record*>(m.payload().valid()?m.payload().deref_p():0); if( !r ) return "norec";
      ObjRef ref; const NumArray *a = 0; try { ref = r->get(HIID(ADATA)); a = dynamic_cast<const NumArray*>(ref.deref_p()); } catch( std::exception & ) {} if( !a ) return "nodata";
      const int *p = static_cast<const int*>(a->getConstDataPtr()); int n=a->shape()[0]; if( n != (size>0?size:1) ) return "size";
      for( int i=0;i<n;i++ ) if( p[i]!=uid*3+i ) return "content"; if( r->hasField(HIID(ANOTE)) ) return "note"; }
    else if( m.payload().valid() ) return "extrapayload";
    if( kind>=2 ) { if( !m.block().valid() ) return "noblock"; if( (int)m.datasize() != size ) return "bsize";
      const unsigned char *p = static_cast<const unsigned char*>(m.data()); for(int i=0;i<size;i++) if( p[i]!=fillbyte(uid,i) ) return "bcontent"; }
    else if( m.block().valid() && m.datasize() ) return "extrablock";
    return "ok"; }
  // a: destination or scope
  void emit(char k,const HIID &id,const string &a,int pri,int hold,int kind,int size) {
    int uid = UIDBASE+(UID++); if( uid-UIDBASE > UIDMAX ) return;
    long s0=seq(); int n;
    std::ostringstream os; os<<idx<<' '<<uid<<' '<<k<<' '<<(id|AtomicID(hold)|AtomicID(uid)).toString()<<' '<<a<<' '<<pri<<' '<<hold<<' '<<kind<<' '<<size<<' '<<std::this_thread::get_id();
    LOG("Sb "<<s0<<' '<<os.str());
    try {
      if( k=='P' ) { Message::Ref ref(make(id,hold,uid,kind,size,pri),DMI::ANON|DMI::WRITE); n = publish(ref,0,atoi(a.c_str())); }
      else if( k=='Q' ) n = publish(id|AtomicID(hold)|AtomicID(uid),0,atoi(a.c_str()),pri);
      else if( k=='D' ) n = send(id|AtomicID(hold)|AtomicID(uid),MsgAddress(HIID(a)),0,pri);
      else { Message::Ref ref(make(id,hold,uid,kind,size,pri),DMI::ANON|DMI::WRITE); n = send(ref,MsgAddress(HIID(a))); }
    } catch( std::exception &e ) { LOG("Sx "<<seq()<<' '<<uid<<' '<<exceptionToString(e)); return; }
    SENT += n;
    LOG("Se "<<seq()<<' '<<uid<<' '<<n);
  }
  int receive(Message::Ref &mref) {
    const HIID id = mref->id();
    if( id.size()<2 || id[0]!=AMSG ) {
      LOG("F "<<seq()<<' '<<idx<<' '<<id.toString()<<' '<<mref->from().toString());
      return Message::ACCEPT; }
    long s0 = seq(); int uid=id[id.size()-1].index(),hold=id[id.size()-2].index();
    int kind=-1,size=0; 
    // kind and size travel in the identifier: VfMsg.<..>.<kind>.<size>.<hold>.<uid>
    kind = id[id.size()-4].index(); size = id[id.size()-3].index();
    string ck = check(*mref,uid,kind,size);
    int res = Message::ACCEPT; const char *rn="A";
    if( hold>0 && hold<20 && !(this->kind&2) ) { std::lock_guard<std::mutex> g(mx); int &h = holds[uid];
      if( hold<10 && h<hold ) { h++; res=Message::HOLD; rn="H"; }
      else if( hold>=10 && h<hold-10 ) { h++; res=Message::REQUEUE; rn="R"; } }
    LOG("R "<<s0<<' '<<idx<<' '<<uid<<' '<<rn<<' '<<id.toString()<<' '<<mref->from().toString()<<' '<<mref->priority()<<' '<<ck<<' '<<mref->hops()<<' '<<(stopped?1:0)<<' '<<std::this_thread::get_id());
    if( res == Message::ACCEPT ) {
      if( workus ) usleep(workus);
      for( auto &r : rules ) { bool go=false; { std::lock_guard<std::mutex> g(mx); if( r.left>0 && id.matches(r.mask) ) { r.left--; go=true; } }
        if( go && r.kind=='X' ) { gone=true; long d0=seq(); LOG("D "<<d0<<' '<<d0<<' '<<idx); detachMyself(); }
        else if( go ) { string a=r.arg; if( a=="from" ) a = mref->from().toString('.'); int k=rules.size()%4; emit(r.kind,r.id|AtomicID((r.kind=='Q'||r.kind=='D')?0:k)|AtomicID(37),a,r.pri,0,k,37); } }
      if( hold==31 ) { std::lock_guard<std::mutex> g(mx); Message::Ref k; k.xfer(mref); kept.push_back(k); }
      else if( hold==32 ) { mref().setId(HIID(ANOTE)); mref().setState(77); }
      else if( hold==33 ) { mref.detach(); }
      else if( mutate && (kind==1||kind==3) ) { // writes to its own copy: nobody else may see it
        ObjRef p(mref().payload()); Record *r = dynamic_cast<Record*>(p.dewr_p());
        if( r ) { (*r)[ANOTE] = idx+1; } }
      if( ++DONE > SENT+2000 ) usleep(20000);
      LOG("Re "<<seq()<<' '<<idx<<' '<<uid);
      if( hold==21 ) Throw("receiver throws");
    }
    else LOG("Re "<<seq()<<' '<<idx<<' '<<uid);
    return res; }
  void drain(std::atomic<bool> &quit) { // a proxy: somebody else's thread takes messages off the queue
    while( true ) { Message::Ref ref; { Thread::Mutex::Lock lock(queueCondition());
        if( queue().empty() ) { if( quit ) return; queueCondition().wait(0,20000000); if( queue().empty() ) continue; }
        ref = queue().front().mref; queue().pop_front(); }
      if( ref->id().size() && ref->id()[0]==AidEvent ) continue;
      receive(ref); } }
  using WPInterface::subscribe;
};
struct Act { int t; string line; };

static std::vector<VfWP*> W; static std::vector<WPRef> WR;
static void act(const string &line) {
  std::istringstream is(line); string op; is>>op;
  if( op=="sleep" ) { int us; is>>us; usleep(us); return; }
  if( op=="yield" ) { std::this_thread::yield(); return; }
  int n; is>>n; VfWP &w = *W[n];
  if( op=="send" ) { string k,id,a; int pri,hold,kind,size; is>>k>>id>>a>>pri>>hold>>kind>>size;
    w.emit(k[0],HIID(id)|AtomicID(k=="Q"||k=="D"?0:kind)|AtomicID(size),a,pri,hold,kind,size); }
  else if( op=="sub" ) { string id; int sc; is>>id>>sc; long s=seq(); try { w.subscribe(HIID(id),sc); } catch( std::exception & ) { if( !w.gone && w.isAttached() ) throw; return; } LOG("U "<<s<<' '<<seq()<<' '<<n<<" + "<<id<<' '<<sc); }
  else if( op=="unsub" ) { string id; is>>id; long s=seq(); try { w.unsubscribe(HIID(id)); } catch( std::exception & ) { if( !w.gone && w.isAttached() ) throw; return; } LOG("U "<<s<<' '<<seq()<<' '<<n<<" - "<<id<<" 0"); }
  else if( op=="write" ) { int k; is>>k; std::vector<char> b(k); for(int i=0;i<k;i++) b[i]=fillbyte(n,w.inbytes+i); w.inbytes+=k;
    if( write(w.pfd[1],b.data(),k)!=k ) abort(); LOG("W "<<seq()<<' '<<n<<' '<<k); }
  else if( op=="detach" ) { long s=seq(); Octopussy::dispatcher().detach(&w); LOG("D "<<s<<' '<<seq()<<' '<<n); }
}
int main(int argc,const char *argv[])
{
  alarm(200);
  const char *out = argv[1];
  for( int i=2;i<argc;i++ ) if( !strncmp(argv[i],"uidbase=",8) ) UIDBASE=atoi(argv[i]+8);
  Debug::initLevels(argc-1,argv+1);
  OctopussyConfig::initGlobal(argc-1,argv+1);
  WPInterface::setLogLevel(-1);
  std::vector<Act> acts; std::vector<string> pre; string line; int gw=0; double limit=20; std::vector<int> need; string waitpeers; double linger=0;
  int cur=0,nthr=0; bool started=false; std::map<int,int> inb; bool waitfile=false; string wf;
  Dispatcher *dsp=0;
  while( std::getline(std::cin,line) ) {
    std::istringstream is(line); string op; is>>op; if( op.empty() ) continue;
    if( op=="gw" ) gw=1;
    else if( op=="limit" ) is>>limit;
    else if( op=="linger" ) is>>linger;
    else if( op=="maxuid" ) is>>UIDMAX;
    else if( op=="waitfile" ) is>>wf;
    else if( op=="wp" ) { if( !dsp ) dsp=&Octopussy::init(gw,false); int n,c,nt,k; is>>n>>c>>nt>>k; VfWP *w=new VfWP(n,c,nt,k); W.push_back(w); WPRef r(w,DMI::ANONWR); WR.push_back(r); dsp->attach(r); }
    else if( op=="isub" ) { int n; Sub s; string id; is>>n>>id>>s.scope; s.id=HIID(id); W[n]->subs.push_back(s); }
    else if( op=="rule" ) { int n; string m,id,k; Rule r; is>>n>>m>>k>>id>>r.arg>>r.pri>>r.left; r.mask=HIID(m); r.id=HIID(id); r.kind=k[0]; W[n]->rules.push_back(r); }
    else if( op=="timeout" ) { int n; Tmo t; string id; is>>n>>t.ms>>id>>t.oneshot>>t.after; t.id=HIID(id); t.fired=std::make_shared<std::atomic<int> >(0); W[n]->tmos.push_back(t); }
    else if( op=="input" ) { int n; is>>n; W[n]->inbytes=1; }
    else if( op=="mutate" ) { int n; is>>n; W[n]->mutate=1; }
    else if( op=="work" ) { int n,u; is>>n>>u; W[n]->workus=u; }
    else if( op=="pre" ) { string r; std::getline(is,r); pre.push_back(r); }
    else if( op=="thr" ) { is>>cur; if( cur>=nthr ) nthr=cur+1; }
    else { acts.push_back(Act{cur,line}); }
  }
  (void)started; (void)waitfile;
  try {
  Octopussy::initThread(true);
  for( auto w : W ) if( w->inbytes ) w->inbytes=0;
  std::atomic<bool> quit(false); std::vector<std::thread> drains;
  for( auto w : W ) if( w->kind&2 ) drains.emplace_back([w,&quit]{ w->drain(quit); });
  LOG("GO "<<seq()<<' '<<now());
  for( auto &p : pre ) act(p);
  if( wf.size() ) { // somebody else says when to go
    std::ofstream(wf+".ready."+std::to_string(UIDBASE)); double t0=now(); while( access(wf.c_str(),F_OK) && now()-t0<60 ) usleep(2000); }
  std::vector<std::thread> ts;
  for( int t=0;t<nthr;t++ ) ts.emplace_back([t,&acts]{ for( auto &a : acts ) if( a.t==t ) act(a.line); });
  for( auto &t : ts ) t.join();
  double t0=now(),last=t0; long seen=-1; int quiet=0;
  VfWP *kicker=0; for( auto w : W ) { bool x=false; for( auto &r : w->rules ) x |= r.kind=='X'; if( !x && !kicker ) kicker=w; }
  auto tmdone = [&]{ for( auto w : W ) { for( auto &t : w->tmos ) if( *t.fired < (t.oneshot?1:t.after) ) return false; if( w->inbytes && w->inread<w->inbytes ) return false; } return true; };
  while( now()-last < limit ) {
    long d=DONE; if( d!=seen ) { seen=d; last=now(); quiet=0; }
    if( d>=SENT && tmdone() && now()-t0>=linger ) { if( ++quiet>10 ) break; }
    else { // kick held messages: something of higher priority for every WP
      static int kicks=0; if( now()-last>0.05 && kicks<200 ) { kicks++; for( auto w : W ) if( !w->stopped && !w->gone ) { kicker->emit('D',HIID(AMSG)|ANOTE|AtomicID(0)|AtomicID(0),w->address().toString('.'),Message::PRI_EVENT+kicks,0,0,0); } } }
    usleep(quiet?3000:1000); }
  LOG("END "<<seq()<<' '<<now()<<' '<<SENT<<' '<<DONE);
  if( wf.size() ) { std::ofstream(wf+".done."+std::to_string(UIDBASE)); double t1=now(); while( access((wf+".stop").c_str(),F_OK) && now()-t1<60 ) usleep(2000); }
  quit=true; for( auto &t : drains ) t.join();
  Octopussy::stopThread();
  LOG("STOP "<<seq()<<' '<<now());
  usleep(5000);
  Octopussy::destroy();
  } catch( std::exception &e ) { LOG("EXC "<<seq()<<' '<<exceptionToString(e)); }
  std::ofstream f(out); for( auto l : logs ) for( auto &s : l->v ) f<<s<<'\n';
  f<<"OK\n"; f.close();
  return 0;
}
