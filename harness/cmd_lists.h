/* Command lines: templates (each ? is a hole), unusual ones, and ones that may change the session. */
static const char *const one[] = {
    "help?", "help ?", "help operators?", "license?", "clear?", "clear ??", "clear f?", "clear ? ", "load ?", "load c?", "load b?", "load simplification ?", "load simplification b?", "load simplification g?",
    "load?", "table?", "table ?", "table x;1;2;?", "table x;1;?;1", "table x;?;2;1", "table ?;1;2;1", "table x?1;2;1", "table x;1;2;1 fold ?;0", "table x;1;2;1 fold x+y;?", "table x;1;2;1 fold?x;0", "table x;1;2;1 fold x", "table x;1;2;1;?", "table ;;;", "table ;;; fold ;", "table x;1;2;1 fold x+?;0",
    "table x/0;1;2;1", "table y?;1;2;1", "table x ; 1/0 ; 2 ; 1", "table x;x;2;1", "table x;1;2;0", "table x;1;1;1", "table deriv(x,x);1;2;1", "table x';1;2;1",
    "?=1", "f?=1", "f(?)=1", "f(x)=?", "f(x?)=x", "f(x,?)=x", "?(x)=x", "k(x)=?x", "k=?", "k=?1", "f=?", "=?", "?=", "==?", "f(x)=?=", " ? = 1", "sin(x)=?", "sum=?", "k(?,x,y)=1", "k(x)=f(?)", "k(x)=k(?)", "c(?)=1", "f=c?",
    "k(a,b,c,d,e,g,h,i,j,l,m)=1", "k(x y)=1", "k(x)y=1", "k((x))=x", "k([x])=1", "k([x,y])=1", "(k)=1", "k=(", "k()=1", "k(1)=x", "1k=1", "k l=1", "k(=1", "k(x=1", "k)=1", "k,=1",
    "f?1)", "f(?1)", "f(1?", "f(1,?)", "g(?,1)", "g(1,2,?)", "c?", "c?1", "?c", "@?", "@?1", "?@", "ans?", "?ans", "1?2", "1??2", "(?", "?)", "[?]", "sum(?)", "sum(1,?)", "sum?", "sum()", "sum", "max()", "deriv(?,x)", "deriv(x,?)", "deriv(?", "x?", "x'?", "?'", "root(?,2)", "root(2,?)", "1.?", ".?", "?.", "1e?", "0x?", "gcd(?,2)", "lcm(2,?)", "rand(?,2)", "fib(?)", "gamma(?)", "-?", "2^-?", "5!?", "3%?", "2C?", "2 mod ?", "quit", "quit?", "?quit", "#?", "\"?", "1 ? 2", "log(?,2)", "var(?)", "prod(?)", "exp?", "sqrt?2", "x?y?z",
};
static const char *const nasty[] = {
    "((((((((((((((((((((((((((((((1", "1))))))))", "[[[[[[[[1]]]]]]]]", "------------------1", "1!!!!!!!!", "%%%", "f(f(f(f(f(f(f(1)))))))", "f(,)", "f(,1)", "f(1,)", ",,,", "[,]", "[]", "[]+1", "()", "() ()", "sum([1,2],[3])", "[1,2]=[3]", "f f f", "f(x)(x)", "sin cos tan", "sinx", "x''", "x'y'", "(x y)'", "deriv()", "deriv(x)", "deriv(x,x,x)", "deriv(1/0,x)", "@@0", "@(@0)", "@99999999999999999999", "@-99999999999999999999", "@(0/0)", "1/0", "0^0", "0^-1", "(-8)^(1/3)", "root(0,2)", "gcd(0,0)", "gcd(1e300,3)", "gcd(0.5,3)", "lcm(0,5)", "5 mod 0", "1e300 mod 7", "-5 mod 3", "3 C 1e9", "1e9 C 3", "170!", "1e400", "-1e400", "fib(200)", "fib(-3)", "fib(1.5)", "rand(1e300,2)", "rand(3,1)", "ans ans", "$", "$ 1", "$1+2", "1 $ 2", "'", "''", "x'", "(1/0)'", "=", "= =", "===", "a=b=c", "a=a", "a(x)=a", "a(x)=b(x)", "a(b)=b", "e=1", "pi(x)=1", "ans=1", "ans(x)=1", "@(x)=1", "+(x)=1", "x+y=1", "table", "table ", "table ;", "table ; ; ; ; ;", "table 1;2;3", "table x;1;3;1 fold", "table x;1;3;1 fold ", "table x;1;3;1 fold x;y", "table x;1;3;1 fold z;0", "table x;3;1;1", "table x;1;3;-1", "table x;1;3;0.5", "table f(x);1;3;1 fold x+y;0", "table sum(x,y);1;2;1", "table 1;1;3;1", "load", "load ", "load .", "load simplification", "load simplification ", "clear", "clear ", "clear  ", "clear f", "clear g", "clear sin", "clear +", "clear c c", "clearf", "help", "help ", "help operators", "help operators ", "license", "license ", " help", "", " ", "  ", "\t", "1\t2", "\x01", "\xff\xfe", "\xc3\xa4", "\xe2\x94\x80 + 1", "a\xc3\xa4=1", "quit", " quit", "quit=1", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa=1", "12345678901234567890123456789012345678901234567890123456789012345678901234567890", "1.2.3", "..", "1..", "%s%s%s%n", "%d=1", "\\", "`", "~", "{1}", "1;2", "a:b", "\"x\"", "?", "x?", "!x", "!", "x!!", "2x!", "2 3", "2(3)", "(2)(3)", "2[3]", "x=1", "x", "x=2", "x(y)=2", "f(x)=f", "f(x)=c x", "c(x)=x", "g(x)=f(x)", "f(f)=f", "f(c)=c", "k(x)=x", "k(k(1))",
};
static const char *const change[] = {"f(x)=x^2+1", "f(x)=f", "c=@0", "c(x)=x", "f(f)=f", "f(c)=c", "x=1", "e=1", "a=a", "a(x)=b(x)", "g(x)=f(x)", "clear", "clear f", "clear c", "clear +", "load cf", "load bf", "load simplification gf", "load simplification bf", "load simplification cf", "load none", "table x;1;3;1", "table x;1;3;1 fold x+y;0", "table f(x);1;3;1 fold z;0", "1/0", "2 3", "ans", "x'", "deriv(x^2,x)", "k(k(1))", "k(x)=x", "help operators", "f(1/0)=2", "(c)=2", "c c=2", "\xff=1"};
