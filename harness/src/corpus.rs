//! Alphabets, contexts and programs.

/// Expression holes in expressions.
pub const EXPR: &[&str] = &[
    "@ + b", "a + @", "@ * b", "a * @", "@ ** b", "a ** @", "@ - b", "a - @", "a / @", "@ / b", "a % @", "@ << b", "a >> @", "a >>> @", "@ >>> b",
    "@ < b", "a <= @", "@ > b", "a >= @", "@ in b", "a in @", "@ instanceof b", "a instanceof @",
    "@ == b", "a != @", "@ === b", "a !== @", "@ & b", "a & @", "@ ^ b", "a ^ @", "@ | b", "a | @", "@ && b", "a && @", "@ || b", "a || @",
    "@ ? b : c", "a ? @ : c", "a ? b : @", "@ = b", "a = @", "@ += b", "a -= @", "a *= @", "a **= @", "a <<= @", "a >>>= @", "a /= @", "a |= @",
    "@ , b", "a , @", "- @", "+ @", "! @", "~ @", "typeof @", "void @", "delete @", "++ @", "-- @", "@ ++", "@ --",
    "new @", "new @()", "new @(a)", "new @.b", "new a(@)", "new new @", "new new @()()",
    "@ . b", "@ . if", "@ [ b ]", "a [ @ ]", "@ ( b )", "@ ( )", "a ( @ )", "a ( b , @ )", "a ( ... @ )", "a . b ( @ ) . c", "a ( @ , )",
    "[ @ ]", "[ a , @ ]", "[ , @ ]", "[ @ , , b ]", "[ ... @ ]", "[ @ , ]", "( @ )", "( @ , a )",
    "{ b : @ }", "{ [ @ ] : b }", "{ ... @ }", "{ b ( c = @ ) { } }", "{ b ( ) { return @ } }", "{ a , b : @ , c }", "{ 1 : @ , 's' : @ }", "{ [ @ ] ( ) { } }",
    "` x ${ @ } y `", "` ${ a } ${ @ } `", "@ ` x `", "@ ` x ${ b } `", "a ` ${ @ } `",
    "function ( ) { return @ }", "function f ( a = @ ) { }", "function * ( ) { @ }", "function ( [ a = @ ] ) { }",
    "a => @", "( a , b ) => @", "( ) => @", "( a = @ ) => b", "a => { @ }", "( ) => { return @ }", "a => ( { b : @ } )", "a => b => @",
    "class { b = @ }", "class extends @ { }", "class A extends @ { }", "class { [ @ ] ( ) { } }", "class { static b = @ }", "class { constructor ( ) { @ } }", "class { get a ( ) { @ } }", "class { [ @ ] = b }",
    "( @ ) . b", "( @ ) ( )", "( @ ) [ 0 ]", "new ( @ )", "new ( @ ) ( )", "( @ ) ` `", "( @ ) + a", "a + ( @ )", "( @ ) ** a", "- ( @ )", "( @ ) ? a : b", "( @ ) = a", "( @ ) ++", "a = ( @ )", "... @",
    "a ? ( @ ) : b", "( @ ) => a", "a => ( @ )", "{ a : ( @ ) }", "( @ ) in a", "( ( @ ) )",
];

/// A smaller choice of expression contexts, one per production.
pub const EXPR_CORE: &[&str] = &[
    "@ + b", "a + @", "@ * b", "a * @", "@ ** b", "a ** @", "@ < b", "a < @", "@ in b", "@ == b", "a & @", "@ && b", "a || @", "@ ? b : c", "a ? @ : c", "a ? b : @",
    "@ = b", "a = @", "a += @", "@ , b", "a , @", "- @", "! @", "typeof @", "++ @", "@ ++", "new @", "new @()", "new a(@)", "@ . b", "@ [ b ]", "a [ @ ]", "@ ( b )", "a ( @ )", "a ( ... @ )",
    "[ @ ]", "[ a , @ ]", "( @ )", "{ b : @ }", "{ [ @ ] : b }", "{ ... @ }", "{ b ( ) { return @ } }", "` x ${ @ } y `", "@ ` x `",
    "function ( ) { return @ }", "function f ( a = @ ) { }", "a => @", "( a = @ ) => b", "a => { @ }", "class { b = @ }", "class extends @ { }", "class { [ @ ] ( ) { } }",
    "( @ ) . b", "( @ ) ( )", "new ( @ )", "( @ ) + a", "a + ( @ )", "( @ ) ** a", "- ( @ )", "( @ ) ? a : b", "a = ( @ )", "a => ( @ )",
];

pub const ATOMS: &[&str] = &[
    "x", "1", "'s'", "this", "/r/g", "` t `", "[ ]", "{ }", "( x )", "null", "undefined", "0b1", "function ( ) { }", "class { }", "x => y", "( ) => { }", "x . y", "x ( )", "new X", "x ++", "- x", "x , y", "x = y", "x ? y : z",
    "x in y", "x + y", "x ** y", "{ x , y : z }", "[ x , ... y ]", "new . target", "function * g ( ) { }", "- 1", "1 . x", "1.5 . x", "true", "x ` `", "typeof x", "-- x", "x && y", "'\\''",
];

pub const ATOMS_FEW: &[&str] = &["x", "1", "{ }", "function ( ) { }", "x => y", "x , y", "- x", "x = y", "/r/", "x + y", "new X", "x ( )", "class { }", "` t `", "x in y", "x ++"];

/// Expression holes in statements.
pub const EXPR_IN_STMT: &[&str] = &[
    "@ ;", "@", "return @ ;", "return @", "throw @", "throw @ ;", "if ( @ ) a ;", "if ( @ ) a ; else b ;", "while ( @ ) a ;", "do a ; while ( @ )", "do { } while ( @ ) ;", "for ( @ ; ; ) a ;", "for ( ; @ ; ) a ;", "for ( ; ; @ ) a ;",
    "for ( var a = @ ; ; ) b ;", "for ( let a = @ , c = @ ; ; ) b ;", "for ( a in @ ) b ;", "for ( @ in a ) b ;", "for ( @ of a ) b ;", "for ( const a of @ ) b ;", "for ( var a in @ ) b ;",
    "switch ( @ ) { }", "switch ( a ) { case @ : }", "switch ( a ) { case @ : b ; default : c }", "var a = @ ;", "var a = @ , b ;", "let a , b = @", "const a = @ ;", "var [ a = @ ] = b ;", "let { a : b = @ } = c ;", "let { [ @ ] : a } = b ;",
    "function f ( a = @ ) { }", "function f ( { a : b = @ } ) { }", "function f ( ) { return @ }", "class A extends @ { }", "class A { [ @ ] ( ) { } }", "class A { a = @ }", "class A { static [ @ ] = b ; }", "class A { a ( b = @ ) { } }",
    "l : @", "@ \n b", "a \n @", "{ @ }", "a ; @", "if ( a ) @", "if ( a ) @ ; else b", "else @", "( @ )", "x = @ ;", "@ ; @", "a => { @ }", "try { @ } catch ( e ) { }",
];

/// Statement holes.
pub const STMT: &[&str] = &[
    "{ @ }", "if ( a ) @", "if ( a ) @ else b", "if ( a ) b ; else @", "if ( a ) if ( b ) c ; else @", "while ( a ) @", "do @ while ( a )", "do @ while ( a ) ; b", "for ( ; ; ) @", "for ( a in b ) @", "for ( var a of b ) @", "l : @", "l : m : @",
    "try { @ } catch ( e ) { }", "try { } catch ( e ) { @ }", "try { } finally { @ }", "try { } catch ( { e } ) { } finally { @ }", "switch ( a ) { case b : @ }", "switch ( a ) { default : @ case b : c }", "switch ( a ) { case b : c ; default : @ }",
    "function f ( ) { @ }", "function * g ( ) { @ }", "( function ( ) { @ } )", "a => { @ }", "( ) => { @ }", "x = function ( ) { @ } ;", "class A { m ( ) { @ } }", "class A { static set m ( a ) { @ } }", "( { m ( ) { @ } } )",
    "a ; @", "@ b", "@ ; b", "@ \n b", "a \n @", "@", "; @", "@ ;", "@ }", "if ( a ) { @ } else { b }", "for ( let a = 1 , b ; ; ) @", "while ( a ) { @ }",
];

pub const STMTS: &[&str] = &[
    "x ;", "x", ";", "{ }", "{ x }", "var v ;", "var v = 1 , w", "let v = 1 ;", "const v = 1", "let [ a , b ] = c ;", "const { a , b : c } = d ;", "if ( x ) y ;", "if ( x ) y ; else z ;", "if ( x ) { } else if ( y ) { } else { }", "while ( x ) y ;", "while ( x ) { y }",
    "do x ; while ( y ) ;", "do { } while ( y )", "for ( ; ; ) ;", "for ( var i = 0 , j ; i < 1 ; i ++ ) { }", "for ( x in y ) z ;", "for ( const x of y ) { }", "for ( var x in y ) ;", "for ( x . y of z ) ;", "break ;", "break l ;", "continue", "continue l", "return ;", "return x ;", "return", "throw x ;",
    "try { } catch ( e ) { }", "try { } finally { }", "try { } catch ( [ e ] ) { } finally { }", "switch ( x ) { }", "switch ( x ) { case 1 : y ; break ; default : z }", "l : x ;", "function f ( ) { }", "function * f ( a , b = 1 , ... c ) { }", "class A { }", "class A extends B { c ( ) { } }", "debugger ;", "debugger",
    "import 'm' ;", "import d , { a as b } from 'm' ;", "import * as n from 'm'", "x => y ;", "( function ( ) { } ) ( ) ;", "'use strict' ;", "[ a , b ] = c ;", "( { a } = b ) ;", "x ++ ;", "++ x", "` t ` ;", "/r/ . x ;", "x = function ( ) { }", "x = class { }", "x = { }", "this . x = 1 ;", "a , b ;", "new . target ;", "l : for ( ; ; ) continue l ;", "l : { break l }",
];

pub const STMTS_FEW: &[&str] = &["x ;", "x", ";", "{ }", "var v = 1", "if ( x ) y ;", "if ( x ) y ; else z ;", "do x ; while ( y )", "for ( ; ; ) ;", "return x", "function f ( ) { }", "class A { }", "l : x", "let a = 1 ;", "import 'm'", "x => { }", "( x )", "[ x ]", "/r/", "` `", "++ x", "debugger", "break"];

/// Binding pattern holes.
pub const BIND: &[&str] = &[
    "var @ = a ;", "let @ = a , b = c ;", "const b = c , @ = a", "for ( var @ of a ) b ;", "for ( let @ in a ) b ;", "for ( const @ of a ) { }", "for ( var @ = a ; ; ) b ;", "function f ( @ ) { }", "function f ( a , @ = b , ... c ) { }", "( function ( @ , @ ) { } )", "try { } catch ( @ ) { }",
    "class A { m ( @ ) { } }", "class A { set a ( @ ) { } }", "( { f ( @ ) { } } )", "@ = a ;", "( @ = a ) ;", "for ( @ of a ) b ;", "for ( @ in a ) b ;", "( @ ) => a", "( a , @ ) => b", "( @ = a ) => b", "x = @ = a", "var @ ;", "var a , @ = b , c", "function * f ( @ ) { }", "catch ( @ )",
];
pub const BIND_IN: &[&str] = &[
    "[ @ ]", "[ a , @ ]", "[ , @ ]", "[ @ , , a ]", "[ @ = b ]", "[ @ , ]", "[ a = b , @ ]", "{ a : @ }", "{ a , b : @ }", "{ a : @ , b }", "{ a : @ = b }", "{ [ a ] : @ }", "{ 'a' : @ }", "{ 1 : @ }", "{ if : @ }", "{ a : @ , ... b }", "[ a , ... @ ]", "{ ... @ }", "{ @ }", "{ @ , }", "{ a : [ @ ] }", "[ { a : @ } ]", "{ 0b1 : @ }", "( @ )",
];
pub const BINDS: &[&str] = &["a", "[ ]", "{ }", "[ a ]", "{ a }", "{ a : b }", "[ a , , b ]", "{ ... a }", "[ ... a ]", "{ a , b , c }", "a = b", "a . b", "1", "if", "undefined", "{ a = 1 }", "this", "{ [ a ] : b }", "[ , ]", "[ a , ]", "{ a , }", "{ if }", "... a"];

/// Keys: every kind of property name, in every place that has one.
pub const KEYS: &[&str] = &[
    "a", "get", "set", "static", "constructor", "of", "as", "from", "if", "new", "default", "this", "null", "true", "function", "class", "typeof", "in", "instanceof", "let", "const", "var", "import", "enum", "yield", "await", "async", "undefined", "void", "delete", "return", "super", "extends", "implements", "interface", "package",
    "private", "protected", "public", "with", "export", "debugger", "while", "do", "for", "switch", "case", "break", "continue", "throw", "try", "catch", "finally", "else", "false", "target", "prototype", "__proto__",
    "'s'", "\"d\"", "''", "'a b'", "'constructor'", "\"get\"", "'\\''", "'é'", "0", "1", "10", "1.5", ".5", "1e3", "0x1F", "0o17", "0b101", "1e-7", "0B1", "[ a ]", "[ 1 ]", "[ 's' ]", "[ a + b ]", "[ a = b ]", "[ ( a , b ) ]", "[ f ( ) ]", "[ x => y ]", "[ ` t ` ]", "[ { } ]", "[ 0b1 ]", "[ function ( ) { } ]", "é", "$", "_", "a1", "geta", "sets", "statics", "ge", "se", "stati", "[ [ a ] ]", "[ class { } ]", "[ a in b ]", "[ a ? b : c ]",
];
pub const KEYED: &[&str] = &[
    "( { @ : v } )", "( { @ } )", "( { @ , } )", "( { @ ( ) { } } )", "( { @ ( a , b ) { return 1 } } )", "( { a , @ : v , b } )", "( { @ : v , @ : w } )", "( { @ : function ( ) { } } )", "( { @ : @ } )", "( { @ ( ) { } , @ : v , @ } )", "( { @ , @ } )", "( { ... @ } )", "( { ... @ , @ : v } )", "( { get @ ( ) { } } )", "( { * @ ( ) { } } )",
    "class A { @ ( ) { } }", "class A { static @ ( ) { } }", "class A { get @ ( ) { } }", "class A { set @ ( v ) { } }", "class A { static get @ ( ) { } }", "class A { static set @ ( v ) { } }", "class A { @ = v }", "class A { @ = v ; }", "class A { static @ = v ; }", "class A { @ = v ; @ = w ; }", "class A { @ ( ) { } @ ( ) { } }", "class A { static @ ( ) { } @ ( ) { } static @ = v ; @ = w }",
    "class A { get @ ( ) { } set @ ( v ) { } static get @ ( ) { } static set @ ( v ) { } }", "( class { @ ( a = 1 , ... b ) { c } } )", "class A { a = 1 \n @ = 2 }", "class A { a = 1 \n @ ( ) { } }", "class A { a = 1 \n static @ ( ) { } }", "class A { a = 1 ; @ ( ) { } }", "class A { @ }", "class A { get @ = v }", "class A { @ ( ) { } ; }", "class A { m ( ) { } @ = v }", "class A { @ = v \n @ = w }",
    "class A extends B { @ ( ) { } get @ ( ) { } @ = x => y }", "var { @ : v } = o ;", "var { @ } = o ;", "let { @ : v = d } = o ;", "const { @ : [ v ] } = o", "let { a , @ : v , ... r } = o ;", "function f ( { @ : v } ) { }", "function f ( { @ } ) { }", "( { @ : v } = o ) ;", "( { @ } = o ) ;", "( { @ : v = d , a } = o ) ;", "o . @", "o . @ . @", "o . @ ( )", "o . @ = v", "o [ @ ]", "new o . @", "o . @ ` t `", "typeof o . @", "( o . @ )", "for ( var { @ : v } of o ) ;", "try { } catch ( { @ : v } ) { }", "( { f ( { @ : v } ) { } } )", "import { @ } from 'm'", "import { @ as v } from 'm'", "import { a as @ } from 'm'", "import @ from 'm'", "import * as @ from 'm'", "@ : x", "var @ = 1", "function @ ( ) { }", "class @ { }", "( function @ ( ) { } )", "( class @ { } )", "@ => x", "( @ , b ) => x", "break @", "try { } catch ( @ ) { }", "function f ( @ , ... b ) { }", "function f ( ... @ ) { }",
];

/// Programs, of every construct and of their combination.
pub const PROGRAMS: &[&str] = &[
    "a = b + c * d ;",
    "x = a ? b : c ? d : e ;",
    "f ( a , ... b ) [ c ] . d ;",
    "new A ( b ) . c ( ) ;",
    "new new A ( ) ( b ) ;",
    "x = typeof - a ** b ;",
    "x = ( - a ) ** b ** c ;",
    "a , b , c ;",
    "a = b = c += d ;",
    "a ++ + ++ b - -- c ;",
    "a \n ++ b",
    "a + + b - - c ;",
    "x = a < b == c > d ;",
    "a in b instanceof c ;",
    "x = ` a ${ b } c ${ d + ` e ${ f } ` } g ` ;",
    "tag ` a ${ b } ` . c ` d ` ;",
    "x = { a , b : c , 'd' : e , 1 : f , [ g ] : h , i ( j ) { k } , ... l } ;",
    "x = [ a , , b , ... c , ] ;",
    "[ a , b = 1 , ... c ] = d ;",
    "( { a , b : c , d : [ e ] = f , ... g } = h ) ;",
    "x = function f ( a , b = 1 , ... c ) { return a ; } ;",
    "x = function * ( ) { } ;",
    "x = a => b => c ;",
    "x = ( a , b = 1 ) => { return a } ;",
    "x = ( ) => ( { } ) ;",
    "( a => b ) ( c ) ;",
    "( function ( ) { } ) ( ) ;",
    "x = class A extends B { constructor ( a ) { b } static c ( ) { } get d ( ) { } set d ( e ) { } f = 1 ; static g = h } ;",
    "class A { [ a ] ( ) { } 'b' ( ) { } 1 ( ) { } static [ c ] = d }",
    "x = /a[/]b/g . test ( c ) ;",
    "x = a / b / c ;",
    "x = a \n /b/g",
    "x = 'a\\'b' + \"c\\\"d\" ;",
    "x = 0x1F + 0b11 + 0o17 + 1e3 + .5 + 1. ;",
    "var a = 1 , b , c = d ;",
    "let [ a , , b = 1 ] = c , { d , e : f = g } = h ;",
    "const { a : { b } , ... c } = d",
    "if ( a ) b ; else if ( c ) d ; else e ;",
    "if ( a ) if ( b ) c ; else d ;",
    "if ( a ) { b } else { c }",
    "while ( a ) { b ; c }",
    "do a ; while ( b ) c",
    "do { a } while ( b ) ;",
    "for ( var i = 0 , n = a ; i < n ; i ++ ) { b }",
    "for ( ; ; ) { break ; continue }",
    "for ( a in b ) c ;",
    "for ( const [ a , b ] of c ) { d }",
    "for ( let a in b , c ) ;",
    "for ( a = ( b in c ) ; ; ) d ;",
    "l : for ( ; ; ) { m : { break m ; } continue l }",
    "switch ( a ) { case b : case c : d ; break ; default : e ; case f : }",
    "switch ( a ) { default : switch ( b ) { default : c } case d : }", "switch ( a ) { default : ; default : b }",
    "try { a } catch ( b ) { c } finally { d }",
    "try { a } catch ( { b , c } ) { d }",
    "try { } finally { }",
    "function f ( a , { b , c : d } , [ e , f = 1 ] , ... g ) { return a + b }",
    "function * g ( ) { a }",
    "function f ( ) { return \n a }",
    "function f ( ) { function g ( ) { return this } return g }",
    "import a , { b , c as d } from 'e' ;",
    "import * as a from 'b'",
    "import a , * as b from 'c' ; import 'd'",
    "throw new Error ( 'a' ) ;",
    "debugger ; a",
    "a \n b \n ( c )",
    "a \n [ b ]",
    "a ; ; b ; { } { c }",
    "if ( a ) ; else ;",
    "var f = a => { b } , g = ( ) => c ;",
    "x = { f ( ) { return ( ) => this } , g : a => ( b , c ) } ;",
    "a . if . class = new . target ;",
    "'use strict' ; a",
    "x = a && b || c && ! d ;",
    "x = a | b ^ c & d ;",
    "x = a << b >> c >>> d ;",
    "x = void 0 , delete a . b ;",
    "a [ b ] ( c ) ` d ` . e ++ ;",
    "x = this . a ( function ( ) { return b } , c => d ) ;",
    "x = ( a , b ) ; y = ( c ) ;",
    "é = ñ . π + $a_ ;",
    "x = 'é' + ` π ` + /λ/ ;",
    "while ( a ) if ( b ) { c } else do d ; while ( e )",
    "for ( ; ; ) for ( a of b ) while ( c ) l : d",
    "function f ( ) { if ( a ) return ; else return b \n }",
    "x = a ? ( b , c ) : ( d => e ) ;",
    "( a , b ) => { } \n c",
    "x = { a : { b : { } } , c : [ [ ] , { } ] } ;",
    "x = - ( - a ) + + ( + b ) - ( - ( - c ) ) ;",
    "new ( a ( ) ) ; new ( a . b ) ( ) ; new a . b . c ;",
    "( a = b ) . c ; ( a ? b : c ) . d ; ( a , b ) [ 0 ] ;",
    "x = function ( ) { } . call ( a ) ;",
    "x = 1 .. toString ( ) ; y = 1 . a ; z = 1.5.b ;",
    "import ( a ) . b ( c => d ) ; import . meta . url \n { import ( 's' ) [ 0 ] }",
];

/// Compact programs, with little or unusual white space.
pub const COMPACT: &[&str] = &[
    "a=b+c*d;", "x=a?b:c;", "f(a,...b)[c].d", "new A(b).c()", "a+ +b- -c", "a+++b", "a---b", "x=a/b/c", "x=/a/g.b", "x=a++/b/g", "return/a/", "typeof/a/", "x={a,b:c,d(){},...e}", "[a,,b]=c", "x=a=>b=>({})", "x=`a${b}c`", "`${a}${b}`", "t`a`.b`c`", "if(a)b;else c", "if(a){b}else{c}", "do a;while(b)c", "for(;;)a",
    "for(var a in b)c", "for(a of b)c", "var a=1,b", "let[a]=b", "const{a}=b", "l:a", "switch(a){case b:c;default:d}", "try{a}catch(b){c}finally{d}", "function f(a,b=1,...c){return a}", "class A extends B{c(){}static d=e}", "class A{get a(){}set a(b){}}", "import a,{b as c}from'd'", "import*as a from'b'", "import'a'", "throw a", "debugger", "a.b.if", "a.b/c", "a\n.b", "a.\nb", "a./**/b", "a/**/.b", "1..a", "1.5.a", "1.a", "a[0].b", "(a)/b", "a\n/b/c", "{}/a/g", "a={}/b/c", "function a(){}/b/", "()=>{}\n/a/", "a=>{}/b/", "x=`${{}}`", "x=`}${`}`}`", "x='\\\n'", "x=\"\\u00e9\"", "'a'.b", "a in b", "a instanceof b", "void 0", "delete a.b", "new.target", "a<!b", "a<b>c", "a>>>=b", "a**=b", "a<<=b", "a!==b", "a===b", "x=a?.5:1", "...a", "a=>a", "a\n++b", "a\n--\nb", "return\na", "break\na", "throw\na", "a\n=>b", "if(a)\nb\nelse\nc", "do\na\nwhile(b)\nc", "é.ñ", "a\u{a0}b", "a\u{2028}b", "a//b\nc", "a/*b*/c", "a/*\n*/b", "<!--a", "a-->b", "#!a", "@a", "\\u0061", "a\\", "0x", "1e", "'", "\"a", "`", "`${", "/a", "/*", "//", "'\n'", "0b2", "0o8", "1_0", "1n", "08", "09.5", ".", "..", "...", "a..b", "?", "a??b", "a?.b", "a&&=b", "()", "(a", "a)", "{", "}", "[", "]", "a,", ",a", "a b", "var", "var 1", "if", "for(", "class", "class A{", "class A{a", "function", "import", "import a", "import{a", "new", "switch(a){a}", "try{}", "else", "case a:", "catch", "=>", "a=>", "(a,)=>b", "(...a)=>b", "([a])=>b", "({a})=>b", "(a)=>b", "((a))=>b", "a=1=2", "1=a", "a++=b", "++a++", "-a**b", "a()=b", "({a:1})=b", "[a()]=b", "this=a", "for(a+b in c)d", "let let=1", "var if", "a.1", "a.'b'", "{a:b}", "({a:b,})", "({,})", "[,]", "f(,)", "f(a,)", "`a`b", "a`b", "import a from b", "export a", "yield", "await a", "async()=>a", "super()", "with(a)b", "x = a.b\n.c\n/d/g", "continue\n", "a:\nb", "a\r\nb", "a\rb", "'\\\r\n'", "`\r\n`", "/[/", "/[/]/", "/\\//", "/a/gg", "/a/x", "/(/", "/=/", "x=/=a/", "a/=b", "a/ =b", "/*/", "/**/", "//\u{2028}a", "/*\u{2029}*/a", "\u{feff}a", "\0", "a\0b", "'\0'", "//\0", "\u{1}a", "a\u{7f}", "€", "a€", "😀", "'😀'", "/😀/", "`😀`", "ª", "a\u{200d}b", "a\u{301}",
    "import('a').then(b=>c)", "import.meta.url", "{import(a)}", "if(a)import(b)", "a=>{import(b);import(c)}", "import.meta.a=b", "import(a)\n/b/c",
];

pub const TOK_EXPR: &str = "a 1 ( ) + - ** ++ = , ? : => . [ ] { } new ! /r/ in `t` ... function \\n ;";
pub const TOK_OPS: &str = "a b + - * ** < == && = += ? : , ! ++ ( ) \\n";
pub const TOK_POST: &str = "a ( ) [ ] . new ++ `t` ` ${ if 1 , ...";
pub const TOK_ARROW: &str = "a b ( ) => , = { } 1 ? : ; \\n +";
pub const TOK_OBJ: &str = "a : , } ( ) { [ ] ... get 's' 1 0b1 = if *";
pub const TOK_CLASS: &str = "a } ( ) { = ; \\n static get set constructor [ ] 's' 1 extends ,";
pub const TOK_STMT: &str = "a ; { } ( ) if else while do for \\n return : var function , = 1";
pub const TOK_LOOP: &str = "a ( ) ; in of var let const , = { } [ ] 1";
pub const TOK_SWITCH: &str = "a case default : ; { } break switch ( ) \\n try catch finally throw";
pub const TOK_BIND: &str = "a b , = [ ] { } ( ) : ... ; 1 's'";
pub const TOK_IMPORT: &str = "a , { } * as from 's' import default ; \\n of";
pub const TOK_FUNC: &str = "f ( ) { } a , = ... * function return => [ ] ;";
pub const TOK_ASI: &str = "a \\n ; ++ -- ( ) [ ] { } / + return break throw var = => ` continue debugger";
pub const TOK_ALL: &str = "a 1 's' /r/ `t` ` ${ ( ) [ ] { } ; , . ... : ? => = + += - * ** / ! ~ ++ -- < in of instanceof new typeof this null undefined var let const function class extends static get constructor if else for while do break continue return throw try catch finally switch case default import from as debugger \\n yield async enum";

/// What `TOK_ALL` has none of: together, every token there is.
pub const TOK_REST: &str = "0b1 true false % << >> >>> <= > >= == != === !== & ^ | && || **= *= /= %= <<= >>= >>>= &= ^= |= delete void super with implements package protected interface private public # @ \\";

pub const LEX: &[&str] = &["a", "1", "0", ".", "e", "x", "'", "\\", "`", "$", "{", "}", "/", "*", "\n", " ", "=", "+", "-", "<", ">", "!", "&", "(", ")", "[", "]", "é", "\u{2028}", "\r", ";", ",", "_", "\"", "|", "?", ":", "%", "^", "~", "@", "#", "\0", "\u{1}", "b", "o", "n", "€", "😀", "\u{feff}"];
pub const LEX_FEW: &[&str] = &["a", "1", "0", ".", "'", "\\", "`", "$", "{", "/", "*", "\n", " ", "=", "+", "-", "}", "\u{2028}", "é", "["];
pub const NUM: &[&str] = &["0", "1", "7", "8", "9", ".", "e", "E", "+", "-", "x", "X", "o", "O", "b", "B", "a", "F", "_", "n"];
pub const PUN: &[&str] = &["=", ">", "<", "!", "*", "+", "-", "&", "|", "^", "%", "?", ".", "/", "~", "a", " "];
pub const STRC: &[&str] = &["a", "'", "\"", "\\", "\n", "\r", "n", "u", "0", "x", "4", "\u{2028}", "é", "{", "}"];
pub const TPLC: &[&str] = &["a", "`", "$", "{", "}", "\\", "\n", "'", "/", "\r", "é"];
pub const REGC: &[&str] = &["a", "/", "\\", "[", "]", "*", "\n", "g", "(", "=", "i", "é", "\u{2028}"];
pub const TRIV: &[&str] = &["a", "/", "*", "\n", "\r", " ", "\u{2028}", "\u{2029}", "+", "\u{a0}", "\u{2027}", "é", "(", ";"];

/// Short texts that together have every kind of node.
pub fn kinds() -> Vec<String> {
    let line = |t: &str| t.replace("\\n", "\n");
    let mut v: Vec<String> = PROGRAMS.iter().chain(COMPACT).chain(STMTS).map(|t| line(t)).collect();
    for a in ATOMS.iter().chain(&["null", "true", "false", "undefined", "0x1F", "0o17", "0b11", "017", "1e3", "1.5", ".5", "99999999999999999999", "1e999", "0xffffffffffffffffff", "/[/]/gi", "'\\u0041'"]) { v.push(format!("( {} )", a)); }
    for e in EXPR { v.push(format!("x = {}", line(&e.replace('@', "c")))); }
    for b in BIND { v.push(line(&b.replace('@', "c"))); v.push(line(&b.replace('@', "{ c : [ d = e ] }"))); }
    for k in KEYED { for y in ["c", "if", "'s'", "1", "0b1", "[ c ]"] { v.push(line(&k.replace('@', y))); } }
    v.sort();
    v.dedup();
    v
}
