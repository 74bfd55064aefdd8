// Entry points for the analysis of parsing and evaluation, through the public interface.
// Nothing here is executed; the analysis interprets the library code reached from these functions.
#include "simfil/simfil.h"
#include "simfil/value.h"
#include "simfil/types.h"
#include "simfil/transient.h"
#include "simfil/function.h"
#include "simfil/expression.h"
#include "simfil/environment.h"
#include "simfil/parser.h"
#include "simfil/result.h"
#include "simfil/overlay.h"
#include "simfil/model/model.h"
#include "simfil/model/nodes.h"
#include "simfil/model/string-pool.h"

// Environment of the library: supplied by the analysis
namespace probe
{
using namespace simfil;
// Produces the next value of an evaluation of source `id`; null when there are no more.
const Value* next(int id, int phase, const Value& input);
void answered(int id, int result);
int deliver(const Value& v, int phase);
// Model nodes
int kind(int id);
int count(int id);
int child(int id, int64_t i);
int child_named(int id, int key);
int key(int id, int64_t i);
ScalarValueType scalar(int id);
void eval_begin(const Expr* e);
void eval_end(const Expr* e);
}

namespace drive
{
using namespace simfil;

Value v_undef() { return Value::undef(); }
Value v_null() { return Value::null(); }
Value v_bool(bool b) { return Value::make(b); }
Value v_int(int64_t v) { return Value::make(v); }
Value v_float(double v) { return Value::make(v); }
Value v_string(std::string v) { return Value::make(std::move(v)); }
Value v_range(int64_t a, int64_t b) { return IRangeType::Type.make(a, b); }
Value v_re(std::string s) { return ReType::Type.make(std::move(s)); }

// A function whose values the analysis chooses
struct Source : Function
{
    FnInfo info;
    int id;
    Source(int id) : info{"source", "", ""}, id(id) {}
    auto ident() const -> const FnInfo& override { return info; }
    auto eval(Context ctx, Value val, const std::vector<ExprPtr>& args, const ResultFn& res) const -> Result override
    {
        while (const Value* v = probe::next(id, ctx.phase, val)) {
            auto r = res(ctx, *v);
            probe::answered(id, r);
            if (r == Result::Stop)
                return Result::Stop;
        }
        return Result::Continue;
    }
};
Source sp(0), sq(1), sr(2), ss(3);

struct Root : ResultFn
{
    auto operator()(Context ctx, Value v) const -> Result override { return static_cast<Result>(probe::deliver(v, ctx.phase)); }
};

Environment* env_new()
{
    auto e = new Environment(Environment::WithNewStringCache);
    e->functions["p"] = &sp;
    e->functions["q"] = &sq;
    e->functions["r"] = &sr;
    e->functions["s"] = &ss;
    return e;
}
int env_emplace(Environment* e, std::string s) { return e->stringPool->emplace(s); }
const Expr* env_compile(Environment* e, std::string_view s, bool any, bool wild) { return compile(*e, s, any, wild).release(); }
bool e_constant(const Expr* e) { return e->constant(); }
std::string e_string(const Expr* e) { return e->toString(); }
unsigned long e_warnings(const Environment* e) { return e->warnings.size(); }
void e_delete(const Expr* e) { delete e; }

// Model whose shape the analysis chooses
struct ProbeModel;
struct ProbeNode final : ModelNodeBase
{
    explicit ProbeNode(ModelConstPtr p, uint32_t id) : ModelNodeBase(std::move(p), ModelNodeAddress{128, id}) {}
    explicit ProbeNode(ModelNode const& n) : ModelNodeBase(n) {}
    int id() const { return static_cast<int>(addr_.index()); }
    ModelNode::Ptr at_id(int c) const
    {
        if (c < 0)
            return {};
        return model_ptr<ProbeNode>::make(model_, static_cast<uint32_t>(c));
    }
    ScalarValueType value() const override { return probe::scalar(id()); }
    ValueType type() const override { return static_cast<ValueType>(probe::kind(id())); }
    ModelNode::Ptr get(const StringId& k) const override { return at_id(probe::child_named(id(), k)); }
    ModelNode::Ptr at(int64_t i) const override { return at_id(probe::child(id(), i)); }
    StringId keyAt(int64_t i) const override { return static_cast<StringId>(probe::key(id(), i)); }
    uint32_t size() const override { return static_cast<uint32_t>(probe::count(id())); }
    bool iterate(IterCallback const& cb) const override
    {
        int n = probe::count(id());
        for (int i = 0; i < n; ++i)
            if (!cb(*at(i)))
                return false;
        return true;
    }
};
struct ProbeModel : Model
{
    void resolve(ModelNode const& n, ResolveFn const& cb) const override { cb(ProbeNode(n)); }
};
std::shared_ptr<ProbeModel>* model_new() { return new std::shared_ptr<ProbeModel>(std::make_shared<ProbeModel>()); }
Value v_node(std::shared_ptr<ProbeModel>* m, uint32_t id) { return Value::field(model_ptr<ProbeNode>::make(ModelConstPtr(*m), id)); }
bool v_is_range(const Value& v) { return v.isa(ValueType::TransientObject) && v.as<ValueType::TransientObject>().meta == &IRangeType::Type; }
bool v_is_re(const Value& v) { return v.isa(ValueType::TransientObject) && v.as<ValueType::TransientObject>().meta == &ReType::Type; }
int64_t v_range_begin(const Value& v) { return static_cast<const IRange*>(v.as<ValueType::TransientObject>().data)->begin; }
int64_t v_range_end(const Value& v) { return static_cast<const IRange*>(v.as<ValueType::TransientObject>().data)->end; }
int n_id(const Value& v) { return v.node ? static_cast<int>(v.node->addr().index()) : -1; }
ScalarValueType s_none() { return {}; }
ScalarValueType s_bool(bool v) { return v; }
ScalarValueType s_int(int64_t v) { return v; }
ScalarValueType s_string(std::string v) { return v; }

int e_eval(Environment* e, const Expr* x, int phase, const Value& v)
{
    return x->eval(Context(e, static_cast<Context::Phase>(phase)), v, Root());
}
unsigned long e_eval_all(Environment* e, const Expr* x, std::shared_ptr<ProbeModel>* m, uint32_t id)
{
    ProbeNode n(ModelConstPtr(*m), id);
    return simfil::eval(*e, *x, n).size();
}
void env_debug(Environment* e)
{
    auto d = new Debug;
    d->evalBegin = [](const Expr& x, Context&, Value&, const ResultFn&) { probe::eval_begin(&x); };
    d->evalEnd = [](const Expr& x) { probe::eval_end(&x); };
    e->debug = d;
}
}

// Function table
namespace drive
{
unsigned long env_fn_count(const Environment* e) { return e->functions.size(); }
std::string env_fn_key(const Environment* e, int i)
{
    auto it = e->functions.begin();
    while (i-- > 0)
        ++it;
    return it->first;
}
const Function* env_fn_at(const Environment* e, int i)
{
    auto it = e->functions.begin();
    while (i-- > 0)
        ++it;
    return it->second;
}
std::string fn_name(const Function* f) { return f->ident().ident; }
const Function* env_find(const Environment* e, std::string s) { return e->findFunction(s); }
void env_constant(Environment* e, std::string s, int64_t v) { e->constants.emplace(std::move(s), Value::make(v)); }
bool e_null(const Expr* e) { return e == nullptr; }
}

// The public entry points with their default arguments
namespace drive
{
const Expr* q_compile(Environment* e, std::string_view s) { return compile(*e, s).release(); }
const Expr* q_compile_any(Environment* e, std::string_view s, bool any) { return compile(*e, s, any).release(); }
std::vector<Value>* q_eval(Environment* e, const Expr* x, std::shared_ptr<ProbeModel>* m, uint32_t id)
{
    ProbeNode n(ModelConstPtr(*m), id);
    return new std::vector<Value>(simfil::eval(*e, *x, n));
}
unsigned long q_size(const std::vector<Value>* v) { return v->size(); }
const Value& q_at(const std::vector<Value>* v, unsigned long i) { return (*v)[i]; }
unsigned long q_eval_detached(Environment* e, const Expr* x)
{
    ProbeNode n(ModelConstPtr(), 1);
    return simfil::eval(*e, *x, n).size();
}
}

// Traces
namespace drive
{
Value v_view(std::string_view s) { return Value::strref(s); }
unsigned long t_count(const Environment* e) { return e->traces.size(); }
bool t_has(const Environment* e, std::string s) { return e->traces.find(s) != e->traces.end(); }
unsigned long t_calls(const Environment* e, std::string s) { return e->traces.find(s)->second.calls; }
unsigned long t_size(const Environment* e, std::string s) { return e->traces.find(s)->second.values.size(); }
Value* t_at(Environment* e, std::string s, unsigned long i) { return &e->traces.find(s)->second.values[i]; }
bool t_view(Value* v) { return v->stringViewValue() != nullptr; }
const Value& t_value(Value* v) { return *v; }
}
