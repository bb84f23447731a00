// ---- reference/container operations (value semantics of counted references) ----
#include <DMI/Record.h>
#include <DMI/List.h>
#include <DMI/Vec.h>
#include <DMI/NumArray.h>
#include <map>
static std::map<int,ObjRef> dm_objs; static std::map<int,BlockSet> dm_sets; static int dm_next = 1;
static ObjRef & H (int h) { Need(dm_objs.find(h)==dm_objs.end(),"no such handle"); return dm_objs[h]; }
static int dm_store (ObjRef &ref) { int h = dm_next++; dm_objs[h].xfer(ref); return h; }
static std::vector<HIID> dm_path (PyObject *p)
{
  std::vector<HIID> out; int n = PySequence_Length(p);
  for( int i=0; i<n; i++ )
  {
    PyObjectRef o = PySequence_GetItem(p,i);
    if( PyLong_Check(*o) ) out.push_back(HIID(AtomicID(int(PyLong_AsLong(*o)))));
    else out.push_back(HIID(std::string(PyUnicode_AsUTF8(*o)),0,".")) ;
  }
  return out;
}
#define DM_HOOK(h,path,nonconst) \
  Need(path.empty(),"empty path"); \
  Container::Hook hook(dynamic_cast<Container&>(H(h).dewr()),path[0]); \
  for( size_t i_=1; i_<path.size(); i_++ ) hook[path[i_]];
static PyObject *py_dm_new (PyObject *,PyObject *args)
{
  PyObject *o; if( !PyArg_ParseTuple(args,"O",&o) ) return NULL;
  try { ObjRef ref; pyToDMI(ref,o); Need(!ref.valid(),"no object"); return PyLong_FromLong(dm_store(ref)); } CATCH
}
static PyObject *py_dm_py (PyObject *,PyObject *args)
{
  int h; if( !PyArg_ParseTuple(args,"i",&h) ) return NULL;
  try { return pyFromDMI(H(h).deref()); } CATCH
}
static PyObject *py_dm_type (PyObject *,PyObject *args)
{
  int h; if( !PyArg_ParseTuple(args,"i",&h) ) return NULL;
  try { return PyUnicode_FromString(H(h)->objectType().toString().c_str()); } CATCH
}
static PyObject *py_dm_drop (PyObject *,PyObject *args)
{
  int h; if( !PyArg_ParseTuple(args,"i",&h) ) return NULL;
  try { if( h ) { H(h).detach(); dm_objs.erase(h); } else { dm_objs.clear(); dm_sets.clear(); } } CATCH
  Py_RETURN_NONE;
}
static PyObject *py_dm_copy (PyObject *,PyObject *args)
{
  int h,flags=0,depth=-1; if( !PyArg_ParseTuple(args,"i|ii",&h,&flags,&depth) ) return NULL;
  try { ObjRef r; r.copy(H(h),flags,depth); return PyLong_FromLong(dm_store(r)); } CATCH
}
static PyObject *py_dm_priv (PyObject *,PyObject *args)
{
  int h,flags=0,depth=0; if( !PyArg_ParseTuple(args,"i|ii",&h,&flags,&depth) ) return NULL;
  try { H(h).privatize(flags,depth); } CATCH
  Py_RETURN_NONE;
}
static PyObject *py_dm_get (PyObject *,PyObject *args)
{
  int h,wr=0; PyObject *p; if( !PyArg_ParseTuple(args,"iO|i",&h,&p,&wr) ) return NULL;
  try
  {
    std::vector<HIID> path = dm_path(p); ObjRef r;
    Need(path.empty(),"empty path");
    if( wr )
    {
      Container::Hook hook(dynamic_cast<Container&>(H(h).dewr()),path[0]);
      for( size_t i=1; i<path.size(); i++ ) hook[path[i]];
      r.copy(hook.ref());
    }
    else
    {
      Container::Hook hook(dynamic_cast<const Container&>(H(h).deref()),path[0]);
      for( size_t i=1; i<path.size(); i++ ) hook[path[i]];
      r.copy(hook.ref());
    }
    return PyLong_FromLong(dm_store(r));
  } CATCH
}
static PyObject *py_dm_setobj (PyObject *,PyObject *args)
{
  int h,h2,mode; PyObject *p; if( !PyArg_ParseTuple(args,"iOii",&h,&p,&h2,&mode) ) return NULL;
  try
  {
    std::vector<HIID> path = dm_path(p);
    if( mode == 3 || mode == 4 || mode == 5 )
    {
      List *lst = 0;
      int pos = -1;
      if( mode != 3 ) { pos = path.back()[0].id(); path.pop_back(); }
      if( path.empty() ) lst = &dynamic_cast<List&>(H(h).dewr());
      if( lst ) { if( mode == 3 ) lst->addBack(H(h2).copy()); else if( mode == 4 ) lst->insert(pos,H(h2).copy()); else lst->replace(pos,H(h2).copy()); }
      else
      {
        DM_HOOK(h,path,true);
        List &l = hook.as_wr<List>();
        if( mode == 3 ) l.addBack(H(h2).copy()); else if( mode == 4 ) l.insert(pos,H(h2).copy()); else l.replace(pos,H(h2).copy());
      }
      Py_RETURN_NONE;
    }
    DM_HOOK(h,path,true);
    if( mode == 0 ) hook = H(h2);
    else if( mode == 1 ) hook.replace() = H(h2);
    else if( mode == 2 ) { hook.replace() <<= H(h2); dm_objs.erase(h2); }
  } CATCH
  Py_RETURN_NONE;
}
static PyObject *py_dm_setval (PyObject *,PyObject *args)
{
  int h,repl=0; PyObject *p,*v; if( !PyArg_ParseTuple(args,"iOO|i",&h,&p,&v,&repl) ) return NULL;
  try
  {
    std::vector<HIID> path = dm_path(p);
    DM_HOOK(h,path,true);
    const Container::Hook &hk = repl ? hook.replace() : hook;
    if( PyBool_Check(v) ) hk = bool(v == Py_True);
    else if( PyLong_Check(v) ) hk = int(PyLong_AsLong(v));
    else if( PyFloat_Check(v) ) hk = PyFloat_AsDouble(v);
    else if( PyComplex_Check(v) ) hk = dcomplex(PyComplex_RealAsDouble(v),PyComplex_ImagAsDouble(v));
    else if( PyUnicode_Check(v) ) hk = std::string(PyUnicode_AsUTF8(v));
    else Need(true,"bad value");
  } CATCH
  Py_RETURN_NONE;
}
static PyObject *py_dm_poke (PyObject *,PyObject *args)
{
  int h,idx; PyObject *p; double v; if( !PyArg_ParseTuple(args,"iOid",&h,&p,&idx,&v) ) return NULL;
  try
  {
    std::vector<HIID> path = dm_path(p);
    if( path.empty() )
    {
      NumArray &arr = dynamic_cast<NumArray&>(H(h).dewr());
      static_cast<double*>(arr.getDataPtr())[idx] = v;
    }
    else
    {
      DM_HOOK(h,path,true);
      NumArray &arr = hook.as_wr<NumArray>();
      static_cast<double*>(arr.getDataPtr())[idx] = v;
    }
  } CATCH
  Py_RETURN_NONE;
}
static PyObject *py_dm_num (PyObject *,PyObject *args)
{
  int h; PyObject *p; if( !PyArg_ParseTuple(args,"iO",&h,&p) ) return NULL;
  try
  {
    std::vector<HIID> path = dm_path(p); Need(path.empty(),"empty path");
    Container::Hook hook(dynamic_cast<const Container&>(H(h).deref()),path[0]);
    for( size_t i=1; i<path.size(); i++ ) hook[path[i]];
    return PyFloat_FromDouble(hook.as<double>());
  } CATCH
}
static PyObject *py_dm_remove (PyObject *,PyObject *args)
{
  int h; PyObject *p; if( !PyArg_ParseTuple(args,"iO",&h,&p) ) return NULL;
  try
  {
    std::vector<HIID> path = dm_path(p);
    DM_HOOK(h,path,true);
    ObjRef r = hook.remove();
    return PyLong_FromLong(dm_store(r));
  } CATCH
}
static PyObject *py_dm_blocks (PyObject *,PyObject *args)
{
  int h; if( !PyArg_ParseTuple(args,"i",&h) ) return NULL;
  try
  {
    BlockSet set; int n = H(h)->toBlock(set);
    Need(n != set.size(),Debug::ssprintf("toBlock returned %d but produced %d blocks",n,set.size()));
    int b = dm_next++; dm_sets[b].pushCopy(set); return PyLong_FromLong(b);
  } CATCH
}
static PyObject *py_dm_unblock (PyObject *,PyObject *args)
{
  int b; if( !PyArg_ParseTuple(args,"i",&b) ) return NULL;
  try
  {
    BlockSet set; set.pushCopy(dm_sets[b]);
    ObjRef r = DynamicTypeManager::construct(0,set);
    Need(set.size(),"blocks left over");
    return PyLong_FromLong(dm_store(r));
  } CATCH
}
static PyObject *py_dm_merge (PyObject *,PyObject *args)
{
  int h,h2,over; if( !PyArg_ParseTuple(args,"iii",&h,&h2,&over) ) return NULL;
  try { dynamic_cast<Record&>(H(h).dewr()).merge(dynamic_cast<const Record&>(H(h2).deref()),over); } CATCH
  Py_RETURN_NONE;
}
// writes objects to a BOIO file; returns the offset after each one
static PyObject *py_dm_fwrite (PyObject *,PyObject *args)
{
  const char *fn; PyObject *hs; int app=0; if( !PyArg_ParseTuple(args,"sO|i",&fn,&hs,&app) ) return NULL;
  try
  {
    BOIO f(fn,app ? BOIO::APPEND : BOIO::WRITE);
    int n = PySequence_Size(hs); PyObject *out = PyList_New(n);
    for( int i=0; i<n; i++ )
    {
      PyObject *x = PySequence_GetItem(hs,i); int h = PyLong_AsLong(x); Py_DECREF(x);
      f << H(h); f.flush();
      PyList_SET_ITEM(out,i,PyLong_FromLong(f.ftell()));
    }
    return out;
  } CATCH
}
// reads objects from a BOIO file until the end or an error; returns ([handles],error)
static PyObject *py_dm_fread (PyObject *,PyObject *args)
{
  const char *fn; if( !PyArg_ParseTuple(args,"s",&fn) ) return NULL;
  PyObject *out = PyList_New(0); std::string err;
  try
  {
    BOIO f(fn,BOIO::READ);
    while( PyList_Size(out) < 10000 )
    {
      ObjRef ref;
      TypeId tid = f.nextType();
      if( !tid )
      {
        try { if( f.readAny(ref).id() ) err = "harness: object after end of file"; } catch( ... ) { err = "harness: failure after end of file"; }
        break;
      }
      TypeId tid1 = f.readAny(ref);
      Need(!(tid == tid1),Debug::ssprintf("nextType() says %d, readAny() %d",tid.id(),tid1.id()));
      Need(!ref.valid(),"no object");
      Need(ref->objectType() != tid,"type mismatch");
      PyObject *x = PyLong_FromLong(dm_store(ref)); PyList_Append(out,x); Py_DECREF(x);
    }
    // the end of the file stays the end of the file
    ObjRef ref; TypeId t1 = f.nextType();
    if( err.empty() ) if( t1.id() || f.readAny(ref).id() || ref.valid() ) err = "harness: object after end of file";
  }
  catch( std::exception &exc ) { err = exceptionToString(exc); if( err.empty() ) err = "?"; }
  return Py_BuildValue("(Ns)",out,err.c_str());
}
// List::get()/put()/remove() by index, which may be negative to count from the end
static PyObject *py_dm_list (PyObject *,PyObject *args)
{
  int h,op,n,h2=0; if( !PyArg_ParseTuple(args,"iii|i",&h,&op,&n,&h2) ) return NULL;
  try
  {
    if( op == 0 ) { ObjRef r = dynamic_cast<const DMI::List&>(H(h).deref()).get(n); return PyLong_FromLong(dm_store(r)); }
    DMI::List &list = dynamic_cast<DMI::List&>(H(h).dewr());
    if( op == 1 ) { ObjRef r = list.remove(n); return PyLong_FromLong(dm_store(r)); }
    ObjRef r(H(h2)); list.put(n,r,op == 3 ? DMI::REPLACE : 0);
  } CATCH
  Py_RETURN_NONE;
}
