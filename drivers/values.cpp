// Entry points for the analysis: every value kind and every operator, through the public interface.
// Nothing here is executed; the analysis interprets the library code reached from these functions.
#include "simfil/value.h"
#include "simfil/operator.h"
#include "simfil/types.h"
#include "simfil/transient.h"
#include "simfil/model/model.h"

namespace drive
{
using namespace simfil;

Value v_undef() { return Value::undef(); }
Value v_null() { return Value::null(); }
Value v_bool(bool b) { return Value::make(b); }
Value v_int(int64_t v) { return Value::make(v); }
Value v_float(double v) { return Value::make(v); }
Value v_string(std::string v) { return Value::make(std::move(v)); }
Value v_strref(std::string_view v) { return Value::strref(v); }
Value v_range(int64_t a, int64_t b) { return IRangeType::Type.make(a, b); }

#define BIN(n, o) \
    Value b_##n(const Value& a, const Value& b) { return BinaryOperatorDispatcher<o>::dispatch(a, b); }
#define UN(n, o) \
    Value u_##n(const Value& a) { return UnaryOperatorDispatcher<o>::dispatch(a); }

BIN(add, OperatorAdd)
BIN(sub, OperatorSub)
BIN(mul, OperatorMul)
BIN(div, OperatorDiv)
BIN(mod, OperatorMod)
BIN(eq, OperatorEq)
BIN(neq, OperatorNeq)
BIN(lt, OperatorLt)
BIN(lteq, OperatorLtEq)
BIN(gt, OperatorGt)
BIN(gteq, OperatorGtEq)
BIN(subscript, OperatorSubscript)
BIN(bit_and, OperatorBitAnd)
BIN(bit_or, OperatorBitOr)
BIN(bit_xor, OperatorBitXor)
BIN(shl, OperatorShl)
BIN(shr, OperatorShr)

UN(negate, OperatorNegate)
UN(boolean, OperatorBool)
UN(lnot, OperatorNot)
UN(bitinv, OperatorBitInv)
UN(len, OperatorLen)
UN(type_of, OperatorTypeof)
UN(asint, OperatorAsInt)
UN(asfloat, OperatorAsFloat)
UN(asstring, OperatorAsString)

// Direct use of the built-in user-defined types
Value t_unary(const Value& v, std::string_view op)
{
    const auto& o = v.as<ValueType::TransientObject>();
    return o.meta->unaryOp(op, o);
}
}

// Environment of the library: supplied by the analysis
namespace probe
{
using namespace simfil;
void* init(const void* self);
void* copy(const void* self, void* p);
void deinit(const void* self, void* p);
Value unary(const void* self, std::string_view op, void* p);
Value binary_left(const void* self, std::string_view op, void* p, const Value& v);
Value binary_right(const void* self, std::string_view op, const Value& v, void* p);
uint32_t size();
ValueType kind();
}

namespace drive
{
struct UserType : MetaType
{
    UserType() : MetaType("user") {}
    auto init() const -> void* override { return probe::init(this); }
    auto copy(void* p) const -> void* override { return probe::copy(this, p); }
    auto deinit(void* p) const -> void override { probe::deinit(this, p); }
    auto unaryOp(std::string_view op, const TransientObject& o) const -> Value override { return probe::unary(this, op, o.data); }
    auto binaryOp(std::string_view op, const TransientObject& o, const Value& v) const -> Value override
    {
        return probe::binary_left(this, op, o.data, v);
    }
    auto binaryOp(std::string_view op, const Value& v, const TransientObject& o) const -> Value override
    {
        return probe::binary_right(this, op, v, o.data);
    }
    auto unpack(const TransientObject&, std::function<bool(Value)>) const -> void override {}
};
UserType userA, userB;
Value v_user(int which) { return Value(ValueType::TransientObject, TransientObject(which ? &userB : &userA)); }

struct ProbeNode final : ModelNodeBase
{
    explicit ProbeNode(ModelConstPtr p) : ModelNodeBase(std::move(p), ModelNodeAddress{128, 1}) {}
    ValueType type() const override { return probe::kind(); }
    uint32_t size() const override { return probe::size(); }
};
struct ProbeModel : Model
{
    void resolve(ModelNode const&, ResolveFn const& cb) const override { cb(ProbeNode(shared_from_this())); }
};
Value v_node()
{
    auto m = std::make_shared<ProbeModel>();
    return Value::field(model_ptr<ProbeNode>::make(m));
}

// Holders of user-defined values
TransientObject* h_new(int which) { return new TransientObject(which ? static_cast<const MetaType*>(&userB) : &userA); }
TransientObject* h_copy(const TransientObject* o) { return new TransientObject(*o); }
TransientObject* h_move(TransientObject* o) { return new TransientObject(std::move(*o)); }
void h_assign(TransientObject* a, const TransientObject* b) { *a = *b; }
void h_massign(TransientObject* a, TransientObject* b) { *a = std::move(*b); }
void h_throw(TransientObject* a)
{
    TransientObject x(*a);
    TransientObject y(std::move(*a));
    throw 1;
}
void w_throw(Value* a)
{
    Value x(*a);
    Value y(std::move(*a));
    throw 1;
}
void h_del(TransientObject* a) { delete a; }
// Values holding user-defined values
Value* w_new(int which) { return new Value(v_user(which)); }
Value* w_int() { return new Value(Value::make(int64_t(1))); }
Value* w_copy(const Value* o) { return new Value(*o); }
Value* w_move(Value* o) { return new Value(std::move(*o)); }
void w_assign(Value* a, const Value* b) { *a = *b; }
void w_massign(Value* a, Value* b) { *a = std::move(*b); }
void w_del(Value* a) { delete a; }
std::string w_str(const Value* a) { return a->toString(); }
bool w_same(const Value* a, const Value* b)
{
    return BinaryOperatorDispatcher<OperatorEq>::dispatch(*a, *b).isa(ValueType::Bool);
}
}

namespace drive
{
Value v_re(std::string_view s) { return ReType::Type.make(s); }
}

// Kind tags and payloads
namespace probe
{
ScalarValueType scalar();
void visited(int which);
void payload_bool(bool);
void payload_int(int64_t);
void payload_float(double);
void payload_string(std::string_view);
void payload_object(const void* data);
}
namespace drive
{
struct Visit
{
    void operator()(UndefinedType) const { probe::visited(0); }
    void operator()(NullType) const { probe::visited(1); }
    void operator()(bool v) const { probe::visited(2); probe::payload_bool(v); }
    void operator()(int64_t v) const { probe::visited(3); probe::payload_int(v); }
    void operator()(double v) const { probe::visited(4); probe::payload_float(v); }
    void operator()(const std::string& v) const { probe::visited(5); probe::payload_string(v); }
    void operator()(const TransientObject& v) const { probe::visited(6); probe::payload_object(v.data); }
    void operator()(const ModelNode&) const { probe::visited(7); }
};
Value v_default_null() { return Value::null(); }
Value v_t() { return Value::t(); }
Value v_f() { return Value::f(); }
Value v_model() { return Value::model(); }
Value v_sview(std::string_view v) { return Value::make(v); }
Value v_clref(const std::string& v) { return Value::make(v); }
Value v_lint(const int64_t& v) { return Value::make(v); }
Value v_ldouble(double& v) { return Value::make(v); }
Value v_lbool(const bool& v) { return Value::make(v); }
Value v_kind_int(int64_t v) { return Value(ValueType::Int, v); }
Value v_transient(TransientObject* o) { return Value::make(*o); }
ScalarValueType s_none() { return ScalarValueType{}; }
ScalarValueType s_bool(bool v) { return ScalarValueType{v}; }
ScalarValueType s_int(int64_t v) { return ScalarValueType{v}; }
ScalarValueType s_float(double v) { return ScalarValueType{v}; }
ScalarValueType s_string(std::string v) { return ScalarValueType{std::move(v)}; }
ScalarValueType s_strref(std::string_view v) { return ScalarValueType{v}; }
Value v_scalar(ScalarValueType v) { return Value(std::move(v)); }
ScalarValueType x_scalar(Value& v) { return v.getScalar(); }
void x_visit(const Value& v) { v.visit(Visit()); }
bool x_isa(const Value& v, ValueType t) { return v.isa(t); }
bool x_isbool(const Value& v, bool b) { return v.isBool(b); }
bool x_asbool(const Value& v) { return v.as<ValueType::Bool>(); }
int64_t x_asint(const Value& v) { return v.as<ValueType::Int>(); }
double x_asfloat(const Value& v) { return v.as<ValueType::Float>(); }
std::string x_asstring(const Value& v) { return v.as<ValueType::String>(); }
const void* x_asobject(const Value& v) { return v.as<ValueType::TransientObject>().data; }
std::string x_tostring(const Value& v) { return v.toString(); }
std::string x_typename(ValueType t) { return valueType2String(t); }
const std::string_view* x_sview(Value& v) { return v.stringViewValue(); }
bool x_getint(const Value& v, int64_t& out) { auto r = getNumeric<int64_t>(v); out = r.second; return r.first; }
bool x_getfloat(const Value& v, double& out) { auto r = getNumeric<double>(v); out = r.second; return r.first; }
bool x_sgetint(const ScalarValueType& v, int64_t& out) { auto r = getNumeric<int64_t>(v); out = r.second; return r.first; }

struct TagNode final : ModelNodeBase
{
    explicit TagNode(ModelConstPtr p) : ModelNodeBase(std::move(p), ModelNodeAddress{128, 1}) {}
    ValueType type() const override { return probe::kind(); }
    ScalarValueType value() const override { return probe::scalar(); }
};
struct TagModel : Model
{
    void resolve(ModelNode const&, ResolveFn const& cb) const override { cb(TagNode(shared_from_this())); }
};
Value v_field_ptr()
{
    auto m = std::make_shared<TagModel>();
    return Value::field(model_ptr<TagNode>::make(m));
}
Value v_field_ref()
{
    auto m = std::make_shared<TagModel>();
    auto n = model_ptr<TagNode>::make(m);
    return Value::field(static_cast<const ModelNode&>(*n));
}
ValueType n_valuenode_type(const ScalarValueType& v) { return ValueNode(v).type(); }
ScalarValueType n_valuenode_value(const ScalarValueType& v) { return ValueNode(v).value(); }
ValueType n_type(const ScalarValueType& v) { auto n = model_ptr<ValueNode>::make(v); return n->type(); }
}

namespace drive
{
Value* w_range(int64_t a, int64_t b) { return new Value(IRangeType::Type.make(a, b)); }
Value* w_re(std::string_view s) { return new Value(ReType::Type.make(s)); }
Value* w_string(std::string s) { return new Value(Value::make(std::move(s))); }
bool w_unpack(const Value* v, int64_t stop)
{
    const auto& o = v->as<ValueType::TransientObject>();
    int64_t n = 0;
    o.meta->unpack(o, [&](Value x) { return ++n < stop && x.isa(ValueType::Int); });
    return true;
}
}
