// Entry points for the analysis of model pools and their nodes, through the public interface.
// Nothing here is executed; the analysis interprets the library code reached from these functions.
#include "simfil/model/model.h"
#include "simfil/model/nodes.h"
#include "simfil/model/string-pool.h"
#include "simfil/overlay.h"
#include "simfil/value.h"

// Environment of the library: supplied by the analysis
namespace probe
{
using namespace simfil;
bool visit(int type, const ScalarValueType& value, int column, unsigned index);
bool name(int id);
void resolved(int type, const ScalarValueType& value, int column, unsigned index, unsigned size);
}

namespace drive
{
using namespace simfil;
using P = std::shared_ptr<ModelPool>;
using SP = std::shared_ptr<StringPool>;
using N = ModelNode::Ptr;

P* pool_new() { return new P(std::make_shared<ModelPool>()); }
P* pool_with(const SP* s) { return new P(std::make_shared<ModelPool>(*s)); }
SP* dict_new() { return new SP(std::make_shared<StringPool>()); }
SP* dict_of(const P* p) { return new SP((*p)->strings()); }
bool dict_same(const SP* a, const SP* b) { return a->get() == b->get(); }
int dict_emplace(SP* s, std::string_view n) { return (*s)->emplace(n); }
void dict_swap(P* p, const SP* s) { (*p)->setStrings(*s); }
unsigned long pool_roots(const P* p) { return (*p)->numRoots(); }
N pool_root(const P* p, unsigned long i) { return (*p)->root(i); }
void pool_add_root(P* p, const N& n) { (*p)->addRoot(n); }
void pool_clear(P* p) { (*p)->clear(); }
unsigned long pool_errors(const P* p) { return (*p)->checkForErrors().size(); }
void pool_validate(const P* p) { (*p)->validate(); }
void pool_write(P* p, std::ostream& s) { (*p)->write(s); }
void pool_read(P* p, std::istream& s) { (*p)->read(s); }
std::optional<std::string_view> pool_name(const P* p, int id) { return (*p)->lookupStringId(static_cast<StringId>(id)); }

N n_null() { return {}; }
N n_ref(const P* p, unsigned col, unsigned idx) { return N::make(ModelConstPtr(*p), ModelNodeAddress{static_cast<uint8_t>(col), idx}); }
N n_bool(P* p, bool v) { return (*p)->newSmallValue(v); }
N n_i16(P* p, int16_t v) { return (*p)->newSmallValue(v); }
N n_u16(P* p, uint16_t v) { return (*p)->newSmallValue(v); }
N n_int(P* p, int64_t v) { return (*p)->newValue(v); }
N n_float(P* p, double v) { return (*p)->newValue(v); }
N n_string(P* p, std::string_view v) { return (*p)->newValue(v); }
N n_object(P* p, unsigned long cap) { return (*p)->newObject(cap); }
N n_array(P* p, unsigned long cap) { return (*p)->newArray(cap); }

void a_append(P* p, const N& a, const N& v) { (*p)->resolveArray(a)->append(v); }
void a_append_bool(P* p, const N& a, bool v) { (*p)->resolveArray(a)->append(v); }
void a_append_i16(P* p, const N& a, int16_t v) { (*p)->resolveArray(a)->append(v); }
void a_append_u16(P* p, const N& a, uint16_t v) { (*p)->resolveArray(a)->append(v); }
void a_append_int(P* p, const N& a, int64_t v) { (*p)->resolveArray(a)->append(v); }
void a_append_float(P* p, const N& a, double v) { (*p)->resolveArray(a)->append(v); }
void a_append_string(P* p, const N& a, std::string_view v) { (*p)->resolveArray(a)->append(v); }
void a_extend(P* p, const N& a, const N& b) { (*p)->resolveArray(a)->extend((*p)->resolveArray(b)); }
void o_add(P* p, const N& o, std::string_view k, const N& v) { (*p)->resolveObject(o)->addField(k, v); }
void o_add_bool(P* p, const N& o, std::string_view k, bool v) { (*p)->resolveObject(o)->addBool(k, v); }
void o_add_i16(P* p, const N& o, std::string_view k, int16_t v) { (*p)->resolveObject(o)->addField(k, v); }
void o_add_u16(P* p, const N& o, std::string_view k, uint16_t v) { (*p)->resolveObject(o)->addField(k, v); }
void o_add_int(P* p, const N& o, std::string_view k, int64_t v) { (*p)->resolveObject(o)->addField(k, v); }
void o_add_float(P* p, const N& o, std::string_view k, double v) { (*p)->resolveObject(o)->addField(k, v); }
void o_add_string(P* p, const N& o, std::string_view k, std::string_view v) { (*p)->resolveObject(o)->addField(k, v); }
void o_extend(P* p, const N& o, const N& b) { (*p)->resolveObject(o)->extend((*p)->resolveObject(b)); }
N o_get(const P* p, const N& o, std::string_view k) { return (*p)->resolveObject(o)->get(k); }

// Nodes as seen through the pool (a plain reference) and as their own class
const ModelNode* m_plain(const N& n) { return &*(new N(n))->operator->(); }
const ModelNode* m_object(const P* p, const N& n) { return (new model_ptr<Object>((*p)->resolveObject(n)))->operator->(); }
const ModelNode* m_array(const P* p, const N& n) { return (new model_ptr<Array>((*p)->resolveArray(n)))->operator->(); }
bool show(const ModelNode& n) { return probe::visit(static_cast<int>(n.type()), n.value(), n.addr().column(), n.addr().index()); }
bool a_each(const P* p, const N& a) { return (*p)->resolveArray(a)->forEach([](const ModelNode& n) { return show(n); }); }

// Observers
bool n_set(const N& n) { return n; }
bool n_show(const N& n) { return show(*n); }
int n_type(const ModelNode* n) { return static_cast<int>(n->type()); }
ScalarValueType n_value(const ModelNode* n) { return n->value(); }
unsigned n_size(const ModelNode* n) { return n->size(); }
N n_at(const ModelNode* n, int64_t i) { return n->at(i); }
N n_get(const ModelNode* n, int k) { return n->get(static_cast<StringId>(k)); }
int n_key(const ModelNode* n, int64_t i) { return n->keyAt(i); }
unsigned n_col(const ModelNode* n) { return n->addr().column(); }
unsigned n_idx(const ModelNode* n) { return n->addr().index(); }
bool n_iterate(const ModelNode* n)
{
    return n->iterate(ModelNode::IterLambda([](const ModelNode& c) { return show(c); }));
}
void n_children(const ModelNode* n)
{
    for (const auto& c : *n)
        if (!show(*c))
            break;
}
void n_fields(const ModelNode* n)
{
    for (auto const& [k, c] : n->fields()) {
        probe::name(k);
        if (!show(*c))
            break;
    }
}
void n_names(const ModelNode* n)
{
    for (auto k : n->fieldNames())
        if (!probe::name(k))
            break;
}
void n_resolve(const P* p, const N& n)
{
    (*p)->resolve(*n, Model::Lambda([](auto&& r) {
        probe::resolved(static_cast<int>(r.type()), r.value(), r.addr().column(), r.addr().index(), r.size());
    }));
}

// Addresses
unsigned ad_value(unsigned col, unsigned idx) { return ModelNodeAddress{static_cast<uint8_t>(col), idx}.value_; }
unsigned ad_col(unsigned v) { ModelNodeAddress a; a.value_ = v; return a.column(); }
unsigned ad_idx(unsigned v) { ModelNodeAddress a; a.value_ = v; return a.index(); }
int ad_u16(unsigned v) { ModelNodeAddress a; a.value_ = v; return a.uint16(); }
int ad_i16(unsigned v) { ModelNodeAddress a; a.value_ = v; return a.int16(); }
unsigned ad_setcol(unsigned v, unsigned col) { ModelNodeAddress a; a.value_ = v; a.setColumn(static_cast<uint8_t>(col)); return a.value_; }

// Object with procedural fields
struct Proc : ProceduralObject<4, Proc>
{
    Proc(ModelConstPtr p, ModelNodeAddress a) : ProceduralObject(std::move(p), a) {}
    Proc(ArrayIndex i, ModelConstPtr p, ModelNodeAddress a) : ProceduralObject(i, std::move(p), a) {}
    void put(int k, const N& v)
    {
        fields_.emplace_back(static_cast<StringId>(k), [v](const Proc&) { return v; });
    }
};
Proc* proc_new(const P* p) { return new Proc(ModelConstPtr(*p), ModelNodeAddress{128, 0}); }
Proc* proc_on(const P* p, const N& o) { return new Proc(static_cast<ArrayIndex>(o->addr().index()), ModelConstPtr(*p), o->addr()); }
void proc_put(Proc* o, int k, const N& v) { o->put(k, v); }
const ModelNode* proc_node(const Proc* o) { return o; }
}

// JSON
#include "simfil/model/json.h"
namespace drive
{
P* json_new(const std::string& s) { return new P(json::parse(s)); }
void json_into(const std::string& s, const P* p) { json::parse(s, *p); }
void json_stream(std::istream& s, const P* p) { json::parse(s, *p); }
}

// JSON output
namespace drive
{
nlohmann::json n_json(const ModelNode* n) { return n->toJson(); }
nlohmann::json pool_json(const P* p) { return (*p)->toJson(); }
}

// Overlay nodes and stand-alone values
namespace drive
{
OverlayNode* ov_node(const N& n) { return new OverlayNode(Value::field(*n)); }
OverlayNode* ov_ptr(const N& n) { return new OverlayNode(Value::field(n)); }
OverlayNode* ov_int(int64_t v) { return new OverlayNode(Value::make(v)); }
OverlayNode* ov_string(std::string v) { return new OverlayNode(Value::make(std::move(v))); }
OverlayNode* ov_null() { return new OverlayNode(Value::null()); }
void ov_set_node(OverlayNode* o, int k, const N& n) { o->set(static_cast<StringId>(k), Value::field(*n)); }
void ov_set_int(OverlayNode* o, int k, int64_t v) { o->set(static_cast<StringId>(k), Value::make(v)); }
void ov_set_float(OverlayNode* o, int k, double v) { o->set(static_cast<StringId>(k), Value::make(v)); }
void ov_set_bool(OverlayNode* o, int k, bool v) { o->set(static_cast<StringId>(k), Value::make(v)); }
void ov_set_string(OverlayNode* o, int k, std::string v) { o->set(static_cast<StringId>(k), Value::make(std::move(v))); }
void ov_set_null(OverlayNode* o, int k) { o->set(static_cast<StringId>(k), Value::null()); }
const ModelNode* ov_self(OverlayNode* o) { return o; }
const ModelNode* ov_copy(OverlayNode* o) { return new OverlayNode(static_cast<ModelNode const&>(*o)); }
const ModelNode* ov_base(OverlayNode* o) { return &*(new N(Value::field(static_cast<ModelNode const&>(*o)).node))->operator->(); }
const ModelNode* ov_value(OverlayNode* o) { return &*(new N(Value::field(model_ptr<OverlayNode>::make(*o)).node))->operator->(); }
}
