// vdrv: a Python extension that drives the real libraries in-process.
#include <MeqServer/py3compat.h>
#include <Python.h>
#include <OCTOPython/OctoPython.h>
#include <DMI/BlockSet.h>
#include <DMI/BOIO.h>
#include <DMI/DynamicTypeManager.h>
#include <DMI/Exception.h>
#include <DMI/TypeInfo.h>
#include <MEQ/Forest.h>
#include <MEQ/Node.h>
#include <MEQ/Result.h>
#include <MEQ/Request.h>
#include <MEQ/RequestId.h>
#include <MEQ/Cells.h>
#include <MEQ/MTPool.h>
#include <MEQ/Funklet.h>
#include <MEQ/ParmTable.h>
#include <MeqNodes/ParmTableUtils.h>
#include <unistd.h>
#include <stdexcept>

using namespace DMI;
using namespace OctoPython;

static PyObject *Err;
#define Need(cond,msg) { if( cond ) throw std::runtime_error(msg); }

static PyObject *fail (const std::exception &exc)
{
  PyErr_Clear();
  PyErr_SetString(Err,exceptionToString(exc).c_str());
  return NULL;
}
#define CATCH catch( std::exception &exc ) { return fail(exc); } catch( ... ) { PyErr_Clear(); PyErr_SetString(Err,"unknown C++ exception"); return NULL; }

struct GilRelease { PyThreadState *st; GilRelease () : st(PyEval_SaveThread()) {} ~GilRelease () { PyEval_RestoreThread(st); } };

static Meq::Forest *forest = 0;

static Meq::Forest & F () { Need(!forest,"no forest"); return *forest; }

static pthread_mutex_t ev_mutex = PTHREAD_MUTEX_INITIALIZER;
static std::vector<std::pair<HIID,ObjRef> > ev_list;
static void on_event (const HIID &id,const ObjRef &data)
{
  pthread_mutex_lock(&ev_mutex);
  if( ev_list.size() < 2000 ) ev_list.push_back(std::make_pair(id,ObjRef(data,DMI::COPYREF)));
  pthread_mutex_unlock(&ev_mutex);
}
static PyObject *py_events (PyObject *,PyObject *)
{
  std::vector<std::pair<HIID,ObjRef> > evs;
  pthread_mutex_lock(&ev_mutex); evs.swap(ev_list); pthread_mutex_unlock(&ev_mutex);
  try
  {
    PyObjectRef list = PyList_New(0);
    for( size_t i=0; i<evs.size(); i++ )
    {
      PyObjectRef o;
      if( evs[i].second.valid() ) o = pyFromDMI(*evs[i].second); else { Py_INCREF(Py_None); o = Py_None; }
      PyObjectRef t = Py_BuildValue("(sO)",evs[i].first.toString('.').c_str(),*o);
      PyList_Append(*list,*t);
    }
    return ~list;
  } CATCH
}
static PyObject *py_forest_new (PyObject *,PyObject *)
{
  try { if( !forest ) { forest = new Meq::Forest; forest->setEventCallback(on_event); } else forest->clear(); ev_list.clear(); } CATCH
  Py_RETURN_NONE;
}
static PyObject *py_forest_delete (PyObject *,PyObject *)
{
  try { delete forest; forest = 0; } CATCH
  Py_RETURN_NONE;
}
static PyObject *py_create (PyObject *,PyObject *args)
{
  PyObject *rec;
  if( !PyArg_ParseTuple(args,"O",&rec) ) return NULL;
  try
  {
    DMI::Record::Ref ref; pyToRecord(ref,rec);
    int index = -1;
    F().create(index,ref);
    return PyLong_FromLong(index);
  } CATCH
}
static PyObject *py_init_all (PyObject *,PyObject *)
{
  try
  {
    F().initAll();
    return PyLong_FromLong((*F().state())["Num.Init.Errors"].as<int>(0));
  } CATCH
}
static PyObject *py_find (PyObject *,PyObject *args)
{
  const char *name; if( !PyArg_ParseTuple(args,"s",&name) ) return NULL;
  try { return PyLong_FromLong(F().findIndex(name)); } CATCH
}
static PyObject *py_remove (PyObject *,PyObject *args)
{
  int ni; if( !PyArg_ParseTuple(args,"i",&ni) ) return NULL;
  try { return PyLong_FromLong(F().remove(ni)); } CATCH
}
static PyObject *py_valid (PyObject *,PyObject *args)
{
  int ni; if( !PyArg_ParseTuple(args,"i",&ni) ) return NULL;
  try { return PyLong_FromLong(F().valid(ni)); } CATCH
}
static PyObject *py_get_check (PyObject *,PyObject *args)
{
  int ni; if( !PyArg_ParseTuple(args,"i",&ni) ) return NULL;
  try { Meq::NodeFace &n = F().get(ni); return PyUnicode_FromString(n.name().c_str()); } CATCH
}
static PyObject *py_node_list (PyObject *,PyObject *args)
{
  int content = Meq::Forest::NL_DEFAULT; if( !PyArg_ParseTuple(args,"|i",&content) ) return NULL;
  try { DMI::Record rec; F().getNodeList(rec,content); return pyFromRecord(rec); } CATCH
}
static PyObject *py_execute (PyObject *,PyObject *args)
{
  int ni,depth=0; PyObject *pyreq;
  if( !PyArg_ParseTuple(args,"iO|i",&ni,&pyreq,&depth) ) return NULL;
  try
  {
    ObjRef ref; pyToDMI(ref,pyreq);
    Meq::Request::Ref req; req <<= ref;
    Meq::Result::Ref res;
    int code;
    {
      GilRelease g;
      Meq::Node::Ref node(dynamic_cast<Meq::Node&>(F().get(ni)),DMI::SHARED);
      code = node().execute(res,*req,depth);
    }
    PyObjectRef pr;
    if( res.valid() ) pr = pyFromDMI(*res);
    else { Py_INCREF(Py_None); pr = Py_None; }
    return Py_BuildValue("(iO)",code,*pr);
  } CATCH
}
// executes and keeps the raw C++ result: only the code comes back
static PyObject *py_command (PyObject *,PyObject *args)
{
  int ni; const char *cmd; PyObject *pyargs=Py_None;
  if( !PyArg_ParseTuple(args,"is|O",&ni,&cmd,&pyargs) ) return NULL;
  try
  {
    DMI::Record::Ref rec;
    if( pyargs != Py_None ) pyToRecord(rec,pyargs);
    Meq::Result::Ref res;
    int code = F().get(ni).processCommand(res,HIID(cmd),rec);
    PyObjectRef pr;
    if( res.valid() ) pr = pyFromDMI(*res);
    else { Py_INCREF(Py_None); pr = Py_None; }
    return Py_BuildValue("(iO)",code,*pr);
  } CATCH
}
static PyObject *py_get_state (PyObject *,PyObject *args)
{
  int ni; if( !PyArg_ParseTuple(args,"i",&ni) ) return NULL;
  try { DMI::Record::Ref rec; F().get(ni).getSyncState(rec); return pyFromRecord(*rec); } CATCH
}
static PyObject *py_set_state (PyObject *,PyObject *args)
{
  int ni; PyObject *rec; if( !PyArg_ParseTuple(args,"iO",&ni,&rec) ) return NULL;
  try { DMI::Record::Ref ref; pyToRecord(ref,rec); F().get(ni).setState(ref); } CATCH
  Py_RETURN_NONE;
}
static PyObject *py_forest_state (PyObject *,PyObject *)
{
  try { return pyFromRecord(*F().state()); } CATCH
}
static PyObject *py_set_forest_state (PyObject *,PyObject *args)
{
  PyObject *rec; int complete=0; if( !PyArg_ParseTuple(args,"O|i",&rec,&complete) ) return NULL;
  try { DMI::Record::Ref ref; pyToRecord(ref,rec); F().setState(ref,complete); } CATCH
  Py_RETURN_NONE;
}
static PyObject *py_clear_cache (PyObject *,PyObject *args)
{
  int ni,rec=0; if( !PyArg_ParseTuple(args,"i|i",&ni,&rec) ) return NULL;
  try { F().get(ni).clearCache(rec); } CATCH
  Py_RETURN_NONE;
}
static PyObject *py_mt_start (PyObject *,PyObject *args)
{
  int nw,nb; if( !PyArg_ParseTuple(args,"ii",&nw,&nb) ) return NULL;
  try { Meq::MTPool::start(nw,nb); Meq::MTPool::brigade().join(Meq::MTPool::BUSY,0); } CATCH
  Py_RETURN_NONE;
}
static PyObject *py_abort_flag (PyObject *,PyObject *args)
{
  int on; if( !PyArg_ParseTuple(args,"i",&on) ) return NULL;
  try { if( on ) F().raiseAbortFlag(); else F().clearAbortFlag(); } CATCH
  Py_RETURN_NONE;
}
static PyObject *py_set_cache_policy (PyObject *,PyObject *args)
{
  int ni,p; if( !PyArg_ParseTuple(args,"ii",&ni,&p) ) return NULL;
  try { dynamic_cast<Meq::Node&>(F().get(ni)).setCachePolicy(p); } CATCH
  Py_RETURN_NONE;
}
static PyObject *py_rqid_incr (PyObject *,PyObject *args)
{
  PyObject *seq; const char *symdep; if( !PyArg_ParseTuple(args,"Os",&seq,&symdep) ) return NULL;
  try { HIID id; convertSeqToHIID(id,seq); F().incrRequestId(id,HIID(symdep)); return convertHIIDToSeq(id); } CATCH
}
// ---- DMI ----
static PyObject *py_convert (PyObject *,PyObject *args)
{
  PyObject *obj; if( !PyArg_ParseTuple(args,"O",&obj) ) return NULL;
  try
  {
    ObjRef ref; pyToDMI(ref,obj);
    if( !ref.valid() ) Py_RETURN_NONE;
    return pyFromDMI(*ref);
  } CATCH
}
// object -> blocks -> bytes (list) ; optionally rebuild from copies of them
static PyObject *py_to_blocks (PyObject *,PyObject *args)
{
  PyObject *obj; if( !PyArg_ParseTuple(args,"O",&obj) ) return NULL;
  try
  {
    ObjRef ref; pyToDMI(ref,obj);
    Need(!ref.valid(),"no object");
    BlockSet set; int n = ref->toBlock(set);
    Need(n != set.size(),Debug::ssprintf("toBlock returned %d but produced %d blocks",n,set.size()));
    PyObjectRef list = PyList_New(0);
    for( BlockSet::const_iterator i = set.begin(); i != set.end(); i++ )
    {
      PyObjectRef b = PyBytes_FromStringAndSize((const char*)(*i)->cdata(),(*i)->size());
      PyList_Append(*list,*b);
    }
    return ~list;
  } CATCH
}
static PyObject *py_from_blocks (PyObject *,PyObject *args)
{
  PyObject *list; if( !PyArg_ParseTuple(args,"O",&list) ) return NULL;
  try
  {
    BlockSet set;
    int n = PySequence_Length(list);
    for( int i=0; i<n; i++ )
    {
      PyObjectRef b = PySequence_GetItem(list,i);
      size_t sz = PyBytes_Size(*b);
      SmartBlock *sb = new SmartBlock(sz);
      memcpy(sb->data(),PyBytes_AsString(*b),sz);
      set.pushNew() <<= sb;
    }
    ObjRef ref = DynamicTypeManager::construct(0,set);
    Need(!ref.valid(),"construct returned no object");
    PyObjectRef o = pyFromDMI(*ref);
    return Py_BuildValue("(Oi)",*o,set.size());
  } CATCH
}
static PyObject *py_boio_write (PyObject *,PyObject *args)
{
  const char *fn; PyObject *list; int append=0;
  if( !PyArg_ParseTuple(args,"sO|i",&fn,&list,&append) ) return NULL;
  try
  {
    BOIO boio(fn,append ? BOIO::APPEND : BOIO::WRITE);
    int n = PySequence_Length(list);
    for( int i=0; i<n; i++ )
    {
      PyObjectRef o = PySequence_GetItem(list,i);
      ObjRef ref; pyToDMI(ref,*o);
      boio << *ref;
    }
    boio.close();
  } CATCH
  Py_RETURN_NONE;
}
// reads all objects; returns (list,error or None)
static PyObject *py_boio_read (PyObject *,PyObject *args)
{
  const char *fn; if( !PyArg_ParseTuple(args,"s",&fn) ) return NULL;
  PyObjectRef list = PyList_New(0);
  try
  {
    BOIO boio(fn);
    while( true )
    {
      ObjRef ref;
      TypeId tid = boio.readAny(ref);
      if( tid == 0 ) break;
      PyObjectRef o;
      if( ref.valid() ) o = pyFromDMI(*ref);
      else { Py_INCREF(Py_None); o = Py_None; }
      PyList_Append(*list,*o);
      if( PyList_Size(*list) > 100000 ) break;
    }
    return Py_BuildValue("(OO)",*list,Py_None);
  }
  catch( std::exception &exc )
  {
    PyErr_Clear();
    return Py_BuildValue("(Os)",*list,exceptionToString(exc).c_str());
  }
}
static PyObject *py_validate (PyObject *,PyObject *args)
{
  PyObject *obj; if( !PyArg_ParseTuple(args,"O",&obj) ) return NULL;
  try { ObjRef ref; pyToDMI(ref,obj); return PyUnicode_FromString(ref.valid() ? ref->objectType().toString().c_str() : "None"); } CATCH
}


// ---- VfSource: a test-double leaf node, registered with the real factory -------------------
// State: vf_result (MeqResult returned as is), or vf_a,vf_b,vf_c,vf_d: value = a*time + b*freq + c + d*dataset_id
//        vf_code: extra result code; vf_throw: message to throw (vf_odd: only for odd domain ids); vf_delay: us; vf_reqs: count of evaluations
#include <MEQ/Vells.h>
#include <MEQ/VellSet.h>
#include <MEQ/Axis.h>
#include <MEQ/MeqVocabulary.h>
#include <pthread.h>
#include <atomic>
#include <sched.h>
static std::atomic<int> vf_running(0),vf_maxrunning(0);
struct VfEvent { int node; std::string rqid; unsigned long thread; int kind; };
static pthread_mutex_t vf_log_mutex = PTHREAD_MUTEX_INITIALIZER;
static std::vector<VfEvent> vf_log;
static void vf_event (int node,const HIID &rqid,int kind)
{
  VfEvent e; e.node = node; e.rqid = rqid.toString('.'); e.thread = (unsigned long)pthread_self(); e.kind = kind;
  pthread_mutex_lock(&vf_log_mutex); vf_log.push_back(e); pthread_mutex_unlock(&vf_log_mutex);
}
static const int VfSourceId = -90001;
class VfSource : public Meq::Node
{
  public:
    VfSource () : Meq::Node(0),a(0),b(0),c(0),d(0),code(0),delay(0),has_result(false),linear(false)
    { }
    virtual TypeId objectType () const { return TypeId(VfSourceId); }
  protected:
    virtual void setStateImpl (DMI::Record::Ref &rec,bool initializing)
    {
      Meq::Node::setStateImpl(rec,initializing);
      std::vector<HIID> deps;
      if( rec["Vf.Deps"].get_vector(deps) )
      {
        if( deps.empty() ) setActiveSymDeps();
        else setActiveSymDeps(&deps[0],deps.size());
      }
      linear |= rec["Vf.A"].get(a); linear |= rec["Vf.B"].get(b); linear |= rec["Vf.C"].get(c); linear |= rec["Vf.D"].get(d);
      rec["Vf.Code"].get(code); rec["Vf.Delay"].get(delay); rec["Vf.Throw"].get(thr); rec["Vf.Odd"].get(odd);
      if( rec["Vf.Result"].exists() ) { result = rec["Vf.Result"].ref(); has_result = true; }
    }
    virtual int getResult (Meq::Result::Ref &resref,const std::vector<Meq::Result::Ref> &,const Meq::Request &req,bool)
    {
      vf_event(nodeIndex(),req.id(),0);
      int run = ++vf_running; int m = vf_maxrunning;
      while( run > m && !vf_maxrunning.compare_exchange_weak(m,run) ) ;
      if( delay < 0 ) for( int i=0; i<-delay; i++ ) sched_yield();
      else if( delay ) usleep(delay);
      --vf_running;
      if( !thr.empty() && ( !odd || ( req.id().size() > 1 && req.id()[req.id().size()-2].id()&1 ) ) ) throw LOFAR::Exception(thr);
      if( has_result )
        resref = result;
      else if( linear )
      {
        resref <<= new Meq::Result(1);
        Meq::VellSet &vs = resref().setNewVellSet(0);
        double c0 = c + ( req.id().size() ? d*double(req.id()[req.id().size()-1].id()) : 0 );
        if( !req.hasCells() || ( !a && !b ) )
          vs.setValue(new Meq::Vells(c0));
        else
        {
          const Meq::Cells &cells = req.cells();
          Meq::Vells::Shape shape; Meq::Axis::degenerateShape(shape,cells.rank());
          int nt = a ? cells.ncells(0) : 1, nf = b ? cells.ncells(1) : 1;
          nt = nt ? nt : 1; nf = nf ? nf : 1;
          shape[0] = nt; if( shape.size() > 1 ) shape[1] = nf;
          Meq::Vells &v = vs.setValue(new Meq::Vells(0.,shape,false));
          double *p = v.realStorage();
          for( int i=0; i<nt; i++ )
            for( int j=0; j<nf; j++ )
              *p++ = c0 + ( a ? a*cells.center(0)(i) : 0 ) + ( b ? b*cells.center(1)(j) : 0 );
        }
        if( req.hasCells() ) resref().setCells(req.cells());
      }
      else
        resref <<= new Meq::Result(0);
      return code;
    }
    double a,b,c,d; int code,delay,odd = 0; bool has_result,linear; std::string thr;
    Meq::Result::Ref result;
};
static BObj * construct_VfSource (int n) { return n>0 ? new VfSource [n] : new VfSource; }
static void register_source ()
{
  AtomicID::registerId(VfSourceId,"vfsource");
  const char *names[] = { "vf","deps","code","delay","throw","odd" };
  for( int i=0; i<6; i++ )
  {
    int id;
    if( !AtomicID::findName(id,names[i]) ) AtomicID::registerId(-90010-i,names[i]);
  }
  TypeInfo info(TypeInfo::DYNAMIC,0);
  TypeInfoReg::addToRegistry(TypeId(VfSourceId),info);
  DynamicTypeManager::addToRegistry(TypeId(VfSourceId),construct_VfSource);
}
static PyObject *py_log (PyObject *,PyObject *)
{
  pthread_mutex_lock(&vf_log_mutex); std::vector<VfEvent> log; log.swap(vf_log); pthread_mutex_unlock(&vf_log_mutex);
  PyObjectRef list = PyList_New(0);
  for( size_t i=0; i<log.size(); i++ )
  {
    PyObjectRef t = Py_BuildValue("(isk)",log[i].node,log[i].rqid.c_str(),log[i].thread);
    PyList_Append(*list,*t);
  }
  PyObject *r = Py_BuildValue("(Oi)",*list,int(vf_maxrunning));
  vf_maxrunning = 0;
  return r;
}

static PyObject *py_close_tables (PyObject*,PyObject*)
{ try { Meq::ParmTableUtils::closeTables(); } catch(std::exception &exc) { PyErr_SetString(PyExc_RuntimeError,exc.what()); return 0; } Py_RETURN_NONE; }
#include "dmops.inc"

static PyMethodDef methods[] = {
  {"close_tables",py_close_tables,METH_NOARGS,""},
  {"dm_new",py_dm_new,METH_VARARGS,""},
  {"dm_py",py_dm_py,METH_VARARGS,""},
  {"dm_type",py_dm_type,METH_VARARGS,""},
  {"dm_drop",py_dm_drop,METH_VARARGS,""},
  {"dm_copy",py_dm_copy,METH_VARARGS,""},
  {"dm_priv",py_dm_priv,METH_VARARGS,""},
  {"dm_get",py_dm_get,METH_VARARGS,""},
  {"dm_setobj",py_dm_setobj,METH_VARARGS,""},
  {"dm_setval",py_dm_setval,METH_VARARGS,""},
  {"dm_poke",py_dm_poke,METH_VARARGS,""},
  {"dm_num",py_dm_num,METH_VARARGS,""},
  {"dm_remove",py_dm_remove,METH_VARARGS,""},
  {"dm_blocks",py_dm_blocks,METH_VARARGS,""},
  {"dm_unblock",py_dm_unblock,METH_VARARGS,""},
  {"dm_merge",py_dm_merge,METH_VARARGS,""},
  {"dm_fwrite",py_dm_fwrite,METH_VARARGS,""}, {"dm_fread",py_dm_fread,METH_VARARGS,""}, {"dm_list",py_dm_list,METH_VARARGS,""},

  {"events",py_events,METH_NOARGS,""},{"log",py_log,METH_NOARGS,""},
  {"forest_new",py_forest_new,METH_NOARGS,""},{"forest_delete",py_forest_delete,METH_NOARGS,""},
  {"create",py_create,METH_VARARGS,""},{"init_all",py_init_all,METH_NOARGS,""},
  {"find",py_find,METH_VARARGS,""},{"remove",py_remove,METH_VARARGS,""},{"valid",py_valid,METH_VARARGS,""},
  {"get_name",py_get_check,METH_VARARGS,""},
  {"node_list",py_node_list,METH_VARARGS,""},
  {"execute",py_execute,METH_VARARGS,""},{"command",py_command,METH_VARARGS,""},
  {"get_state",py_get_state,METH_VARARGS,""},{"set_state",py_set_state,METH_VARARGS,""},
  {"forest_state",py_forest_state,METH_NOARGS,""},{"set_forest_state",py_set_forest_state,METH_VARARGS,""},
  {"clear_cache",py_clear_cache,METH_VARARGS,""},{"mt_start",py_mt_start,METH_VARARGS,""},
  {"abort_flag",py_abort_flag,METH_VARARGS,""},{"set_cache_policy",py_set_cache_policy,METH_VARARGS,""},
  {"rqid_incr",py_rqid_incr,METH_VARARGS,""},
  {"convert",py_convert,METH_VARARGS,""},{"to_blocks",py_to_blocks,METH_VARARGS,""},
  {"from_blocks",py_from_blocks,METH_VARARGS,""},{"boio_write",py_boio_write,METH_VARARGS,""},
  {"boio_read",py_boio_read,METH_VARARGS,""},{"validate",py_validate,METH_VARARGS,""},
  {NULL,NULL,0,NULL}
};
static struct PyModuleDef mod = { PyModuleDef_HEAD_INIT,"vdrv","",-1,methods,NULL,NULL,NULL,NULL };
PyMODINIT_FUNC PyInit_vdrv ()
{
  PyObject *m = PyModule_Create(&mod);
  Err = PyErr_NewException("vdrv.Error",NULL,NULL);
  Py_INCREF(Err);
  register_source();
  PyModule_AddObject(m,"Error",Err);
  return m;
}
