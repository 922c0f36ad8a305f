// Declaration-only stand-in for the SymEngine headers, used to type-check
// /repo's sources for static analysis.  Nothing here is ever linked or run.
#pragma once
#include <cstdint>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace SymEngine {
enum TypeID {
    SYMENGINE_INTEGER, SYMENGINE_RATIONAL, SYMENGINE_COMPLEX, SYMENGINE_REAL_DOUBLE, SYMENGINE_SYMBOL, SYMENGINE_DUMMY,
    SYMENGINE_MUL, SYMENGINE_ADD, SYMENGINE_POW, SYMENGINE_FUNCTIONSYMBOL, SYMENGINE_INFTY, SYMENGINE_NOT_A_NUMBER,
    SYMENGINE_MAX, SYMENGINE_MIN, SYMENGINE_BOOLEAN_ATOM, SYMENGINE_AND, SYMENGINE_OR, SYMENGINE_NOT, SYMENGINE_EQUALITY,
    SYMENGINE_UNEQUALITY, SYMENGINE_LESSTHAN, SYMENGINE_STRICTLESSTHAN, SYMENGINE_CONSTANT
};
enum ENull { null };
typedef std::size_t hash_t;

template<class T>
class RCP {
public:
    RCP() noexcept;
    RCP(ENull) noexcept;
    RCP(const RCP<T>&) noexcept;
    RCP(RCP<T>&&) noexcept;
    template<class T2> RCP(const RCP<T2>&) noexcept;
    template<class T2> RCP(RCP<T2>&&) noexcept;
    explicit RCP(T*) noexcept;
    ~RCP();
    T* operator->() const;
    T& operator*() const;
    T* get() const;
    T* ptr() const;
    bool is_null() const;
    template<class T2> bool operator==(const RCP<T2>&) const;
    template<class T2> bool operator!=(const RCP<T2>&) const;
    bool operator==(ENull) const;
    bool operator!=(ENull) const;
    RCP<T>& operator=(const RCP<T>&);
    RCP<T>& operator=(RCP<T>&&);
    void reset();
};
template<class T> class Ptr { public: explicit Ptr(T*); T& operator*() const; T* operator->() const; };
template<class T> Ptr<T> outArg(T& arg);
template<class T, class... A> RCP<T> make_rcp(A&&...);
template<class T2, class T1> RCP<T2> rcp_static_cast(const RCP<T1>&);
template<class T2, class T1> RCP<T2> rcp_dynamic_cast(const RCP<T1>&);
template<class T2, class T1> RCP<T2> rcp_const_cast(const RCP<T1>&);

class Basic;
class Symbol;
class Boolean;
class Number;
class Visitor;
typedef std::vector<RCP<const Basic>> vec_basic;
struct RCPBasicHash { std::size_t operator()(const RCP<const Basic>&) const; };
struct RCPBasicKeyEq { bool operator()(const RCP<const Basic>&, const RCP<const Basic>&) const; };
struct RCPBasicKeyLess { bool operator()(const RCP<const Basic>&, const RCP<const Basic>&) const; };
typedef std::set<RCP<const Basic>, RCPBasicKeyLess> set_basic;
typedef std::map<RCP<const Basic>, RCP<const Basic>, RCPBasicKeyLess> map_basic_basic;
typedef std::unordered_map<RCP<const Basic>, RCP<const Basic>, RCPBasicHash, RCPBasicKeyEq> umap_basic_basic;
typedef std::unordered_map<RCP<const Basic>, RCP<const Number>, RCPBasicHash, RCPBasicKeyEq> umap_basic_num;
typedef std::map<vec_basic, long> map_vec_stub;

class Basic {
public:
    virtual ~Basic();
    TypeID get_type_code() const;
    hash_t hash() const;
    std::string __str__() const;
    virtual vec_basic get_args() const;
    RCP<const Basic> subs(const map_basic_basic&) const;
    RCP<const Basic> diff(const RCP<const Symbol>&) const;
    bool __eq__(const Basic&) const;
    bool __neq__(const Basic&) const;
    int compare(const Basic&) const;
    int __cmp__(const Basic&) const;
    virtual void accept(Visitor&) const;
    RCP<const Basic> rcp_from_this() const;
    template<class T> RCP<const T> rcp_from_this_cast() const;
};
std::ostream& operator<<(std::ostream&, const Basic&);
class Number : public Basic { public: bool is_zero() const; bool is_one() const; bool is_negative() const; bool is_positive() const; bool is_exact() const; };
struct integer_class { integer_class(long); long get_si() const; operator long() const; };
integer_class operator-(const integer_class&);
bool operator==(const integer_class&, const integer_class&);
class Integer : public Number {
public:
    signed long as_int() const; unsigned long as_uint() const; const integer_class& as_integer_class() const;
    bool is_zero() const; bool is_one() const; bool is_minus_one() const; bool is_negative() const; bool is_positive() const;
};
class Rational : public Number { public: RCP<const Integer> get_num() const; RCP<const Integer> get_den() const; };
class RealDouble : public Number { public: double as_double() const; double i; };
class Infty : public Number { public: bool is_positive_infinity() const; bool is_negative_infinity() const; bool is_unsigned_infinity() const; bool is_positive() const; bool is_negative() const; };
class NaN : public Number {};
class Constant : public Basic { public: const std::string& get_name() const; };
class Symbol : public Basic { public: explicit Symbol(const std::string&); const std::string& get_name() const; };
class Add : public Basic { public: const RCP<const Number>& get_coef() const; const umap_basic_num& get_dict() const; };
class Mul : public Basic { public: const RCP<const Number>& get_coef() const; const map_basic_basic& get_dict() const; };
class Pow : public Basic { public: RCP<const Basic> get_base() const; RCP<const Basic> get_exp() const; };
class Function : public Basic {};
class FunctionSymbol : public Function {
public:
    FunctionSymbol(const std::string&, const vec_basic&);
    FunctionSymbol(const std::string&, const RCP<const Basic>&);
    const std::string& get_name() const;
    virtual RCP<const Basic> create(const vec_basic&) const;
};
class Max : public Function {};
class Min : public Function {};
class Boolean : public Basic { public: virtual RCP<const Boolean> logical_not() const; };
typedef std::set<RCP<const Boolean>, RCPBasicKeyLess> set_boolean;
typedef std::vector<RCP<const Boolean>> vec_boolean;
class BooleanAtom : public Boolean { public: bool get_val() const; };
class Relational : public Boolean { public: RCP<const Basic> get_arg1() const; RCP<const Basic> get_arg2() const; };
class Equality : public Relational {};
class Unequality : public Relational {};
class LessThan : public Relational {};
class StrictLessThan : public Relational {};
class And : public Boolean { public: const set_boolean& get_container() const; };
class Or : public Boolean { public: const set_boolean& get_container() const; };
class Not : public Boolean { public: RCP<const Boolean> get_arg() const; };
class Piecewise : public Function {};
class Contains : public Boolean {};

class SymEngineException : public std::exception { public: SymEngineException(const std::string&); const char* what() const noexcept override; };
class NotImplementedError : public SymEngineException { public: NotImplementedError(const std::string&); };

extern RCP<const Integer> zero, one, minus_one, two;
extern RCP<const Infty> Inf, NegInf, ComplexInf;
extern RCP<const NaN> Nan;
extern RCP<const Constant> pi, E;
extern RCP<const BooleanAtom> boolTrue, boolFalse;

template<class T> bool is_a(const Basic&);
template<class T> bool is_a_sub(const Basic&);
bool is_a_Number(const Basic&);
bool is_a_Boolean(const Basic&);
bool is_a_Relational(const Basic&);
template<class T> const T& down_cast(const Basic&);

bool eq(const Basic&, const Basic&);
bool neq(const Basic&, const Basic&);
RCP<const Integer> integer(long);
RCP<const Integer> integer(int);
RCP<const Integer> integer(unsigned long);
RCP<const Integer> integer(long long);
RCP<const Integer> integer(const integer_class&);
RCP<const Number> rational(long, long);
RCP<const RealDouble> real_double(double);
RCP<const Symbol> symbol(const std::string&);
RCP<const Basic> function_symbol(std::string, const RCP<const Basic>&);
RCP<const Basic> function_symbol(std::string, const vec_basic&);
RCP<const Basic> add(const RCP<const Basic>&, const RCP<const Basic>&);
RCP<const Basic> add(const vec_basic&);
RCP<const Basic> sub(const RCP<const Basic>&, const RCP<const Basic>&);
RCP<const Basic> mul(const RCP<const Basic>&, const RCP<const Basic>&);
RCP<const Basic> mul(const vec_basic&);
RCP<const Basic> div(const RCP<const Basic>&, const RCP<const Basic>&);
RCP<const Basic> pow(const RCP<const Basic>&, const RCP<const Basic>&);
RCP<const Basic> neg(const RCP<const Basic>&);
RCP<const Basic> min(const vec_basic&);
RCP<const Basic> max(const vec_basic&);
RCP<const Basic> abs(const RCP<const Basic>&);
RCP<const Basic> ceiling(const RCP<const Basic>&);
RCP<const Basic> floor(const RCP<const Basic>&);
RCP<const Basic> log(const RCP<const Basic>&);
RCP<const Basic> exp(const RCP<const Basic>&);
RCP<const Basic> expand(const RCP<const Basic>&, bool deep = true);
RCP<const Basic> simplify(const RCP<const Basic>&);
RCP<const Basic> parse(const std::string&, bool convert_xor = true, const std::map<const std::string, const RCP<const Basic>>& constants = {});
RCP<const Boolean> boolean(bool);
RCP<const Boolean> Eq(const RCP<const Basic>&, const RCP<const Basic>&);
RCP<const Boolean> Ne(const RCP<const Basic>&, const RCP<const Basic>&);
RCP<const Boolean> Lt(const RCP<const Basic>&, const RCP<const Basic>&);
RCP<const Boolean> Le(const RCP<const Basic>&, const RCP<const Basic>&);
RCP<const Boolean> Gt(const RCP<const Basic>&, const RCP<const Basic>&);
RCP<const Boolean> Ge(const RCP<const Basic>&, const RCP<const Basic>&);
RCP<const Boolean> logical_and(const set_boolean&);
RCP<const Boolean> logical_or(const set_boolean&);
RCP<const Boolean> logical_not(const RCP<const Boolean>&);
RCP<const Infty> infty(int = 1);
set_basic free_symbols(const Basic&);
bool has_symbol(const Basic&, const Basic&);
template<class... T> set_basic atoms(const Basic&);
RCP<const Basic> subs(const RCP<const Basic>&, const map_basic_basic&, bool cache = true);
RCP<const Basic> diff(const RCP<const Basic>&, const RCP<const Symbol>&, bool cache = true);
void as_numer_denom(const RCP<const Basic>&, const Ptr<RCP<const Basic>>&, const Ptr<RCP<const Basic>>&);

class Expression {
public:
    Expression();
    template<class T> Expression(const RCP<T>&);
    template<class J> requires requires(const J& j) { j.is_null(); j.dump(); } Expression(const J&);
    Expression(long); Expression(int); Expression(const std::string&); Expression(const char*);
    const RCP<const Basic>& get_basic() const;
    operator const RCP<const Basic>&() const;
    friend Expression operator+(const Expression&, const Expression&);
    friend Expression operator-(const Expression&, const Expression&);
    friend Expression operator*(const Expression&, const Expression&);
    friend Expression operator/(const Expression&, const Expression&);
    friend bool operator==(const Expression&, const Expression&);
    friend bool operator!=(const Expression&, const Expression&);
};
std::ostream& operator<<(std::ostream&, const Expression&);
Expression expand(const Expression&, bool deep = true);

typedef std::vector<int> vec_int;
struct hash_vec_int_stub { std::size_t operator()(const vec_int&) const; };
struct MExprDict {
    typedef std::unordered_map<vec_int, Expression, hash_vec_int_stub> dict_type;
    dict_type dict_;
    const dict_type& get_dict() const;
    unsigned int vec_size;
};
class MExprPoly : public Basic {
public:
    const MExprDict& get_poly() const;
    const set_basic& get_vars() const;
    unsigned int get_var_pos_stub() const;
};
template<class P> RCP<const P> from_basic(const RCP<const Basic>&, set_basic&, bool ex = false);
template<class P> RCP<const P> from_basic(const RCP<const Basic>&, bool ex = false);

class Visitor { public: virtual ~Visitor(); };
template<class Derived, class Base = Visitor>
class BaseVisitor : public Base { public: using Base::Base; };

class StrPrinter {
public:
    virtual ~StrPrinter();
    std::string str_;
    std::string apply(const RCP<const Basic>&);
    std::string apply(const Basic&);
    std::string apply(const vec_basic&);
    std::string parenthesize(const std::string&);
    std::string parenthesizeLT(const RCP<const Basic>&, int);
    std::string parenthesizeLE(const RCP<const Basic>&, int);
    virtual std::string _print_pow_stub();
};
class CodePrinter : public StrPrinter {
public:
    std::string apply(const RCP<const Basic>&);
    std::string apply(const Basic&);
    std::string apply(const vec_basic&);
    void bvisit(const Basic&);
    std::string print_mul();
    virtual void _print_pow(std::ostringstream&, const RCP<const Basic>&, const RCP<const Basic>&);
};
class C89CodePrinter : public CodePrinter {};
class C99CodePrinter : public CodePrinter {};
class JSCodePrinter : public CodePrinter {};
enum class PrecedenceEnum { Relational, Add, Mul, Pow, Atom };
} // namespace SymEngine
