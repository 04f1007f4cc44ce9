S=[]
def s(ID, PROP, NEEDS, BREAKS, EDITS, MAIN, FILES=None): S.append(dict(ID=ID,PROP=PROP,NEEDS=NEEDS,BREAKS=BREAKS,EDITS=EDITS,MAIN=MAIN,FILES=FILES or {}))

s('C08-arrow-default','C08','a compound assignment (`a += 1`) in the parenthesized parameters of an arrow function',
  'a program that is not valid is accepted: the compound assignment becomes a default value',
  [('ratel/src/parser/mod.rs','''            Expression::Binary(BinaryExpression {
                operator: OperatorKind::Assign,
                left,
                right,
            }) => {''','''            Expression::Binary(BinaryExpression {
                operator,
                left,
                right,
            }) if operator.assignment() => {''')],
  main(r'''
    for source in &["(a += 1) => a", "(b, a |= 1) => a"] {
        if ratel::parse(source).is_ok() {
            println!("accepted: {}", source);
            std::process::exit(1);
        }
    }
    same("default", code("(a=1)=>a", true), "(a=1)=>a;");
'''))

s('C11-hole-only','C11','an array with several leading holes before its first element',
  'the holes in front of the second element are missing in the ESTree output',
  [('ratel/src/astgen/expression.rs','''            loop {
                let should_pop = match elems.last() {
                    Some(&None) => true,
                    Some(&Some(_)) => break,
                    None => break,
                };

                if should_pop {
                    elems.pop();
                }
            }
''','''            // Trailing holes don't count
            let len = elems.iter().filter(|elem| elem.is_some()).count();
            let len = elems.iter().skip(len).position(|elem| elem.is_some()).map(|index| index + len + 1).unwrap_or(len);

            elems.truncate(len);
''')],
  main(r'''
    for &(source, expected) in &[("[,,a]", "[null,null,1]"), ("[a,,b,,,c]", "[1,null,1,null,null,1]"), ("[,a,,,b,c,]", "[null,1,null,null,1,1]"), ("[,,a,b]", "[null,null,1,1]")] {
        let value: serde_json::Value = serde_json::from_str(&json(source)).unwrap();
        let kinds: Vec<_> = value["body"][0]["expression"]["elements"].as_array().unwrap().iter()
            .map(|e| if e.is_null() { "null" } else { "1" }).collect();
        same(source, format!("[{}]", kinds.join(",")), expected);
    }
'''))

s('C12-long-arrow','C12','an arrow function with four or more parameters, printed without minifying',
  'the parameters are broken onto lines of their own, and so is the arrow, which must not follow a line break',
  [('ratel-codegen/src/expression.rs','''            _ => {
                gen.write_byte(b'(');
                gen.write_list(&self.params);
                gen.write_byte(b')');
            }
        }
        gen.write_pretty(b' ');
        gen.write_bytes(b"=>");
''','''            _ => {
                gen.write_byte(b'(');
                gen.write_list(&self.params);
                gen.write_byte(b')');
            }
        }
        // Wrap long declarations
        if self.params.iter().count() > 3 {
            gen.indent();
            gen.new_line();
            gen.dedent();
        } else {
            gen.write_pretty(b' ');
        }
        gen.write_bytes(b"=>");
''')],
  main(r'''
    let source = "x = (a, b, c, d) => a";
    let printed = code(source, false);
    same("minified again", code(&printed, true), &code(source, true));
'''))

s('C13-else-arrow','C13','minifying an `if` whose `else` branch is an expression statement that starts with an arrow function of one bare parameter, or with `new.target`',
  'the keyword `else` runs into the following word',
  [('ratel-codegen/src/statement.rs','''            gen.write_bytes(b"else");
            if alternate.is_block() {
                gen.write_pretty(b' ');
            } else {
                gen.write_byte(b' ');
            }
            gen.write(alternate);
''','''            gen.write_bytes(b"else");
            if alternate.is_block() || starts_with_punctuation(alternate) {
                gen.write_pretty(b' ');
            } else {
                gen.write_byte(b' ');
            }
            gen.write(alternate);
'''),('ratel-codegen/src/statement.rs','''impl<'ast, G: Generator> ToCode<G> for IfStatement<'ast> {''','''/// The first byte of the statement can't be taken for a part of a word before it.
fn starts_with_punctuation<'ast>(statement: &Statement<'ast>) -> bool {
    use ratel::ast::{Expression, Literal, OperatorCategory};

    match *statement {
        Statement::Empty => true,
        Statement::Expression(ref expression) => match *::expression::leftmost(expression) {
            Expression::Void                             => false,
            Expression::This(_)                          |
            Expression::Identifier(_)                    => false,
            Expression::Literal(Literal::String(_))      |
            Expression::Literal(Literal::RegEx(_))       => true,
            Expression::Literal(_)                       => false,
            Expression::Prefix(ref prefix)               => prefix.operator.category() != OperatorCategory::Word,
            _                                            => true,
        },
        _ => false,
    }
}

impl<'ast, G: Generator> ToCode<G> for IfStatement<'ast> {''')],
  main(r'''
    for source in &["if (x) y; else z => z", "function f() { if (x) y; else new.target }"] {
        let minified = code(source, true);
        same(source, json(&code(&minified, false)), &json(&code(source, false)));
    }
'''))

s('C14-trim-zeros','C14','a number literal with two or more trailing zeros in its fraction',
  'printing is not idempotent: every pass strips one more zero',
  [('ratel-codegen/src/expression.rs','''            Number(ref val)   |
''','''            Number(ref val) if val.contains('.') && val.ends_with("00") => {
                // Trailing zeros don't carry any meaning
                gen.write_bytes(&val.as_bytes()[..val.len() - 1])
            },
            Number(ref val) |
''')],
  main(r'''
    let once = code("x = 1.5000 + 2.10", true);
    same("printed twice", code(&once, true), &once);
'''))

s('C15-static-get','C15','a static accessor of a class called `constructor`, or a plain one',
  'the kind of the accessor is lost: it comes out as a constructor',
  [('ratel/src/parser/function.rs','''                    label = par.lexer.token_as_str();
''','''                    label = match par.lexer.token_as_str() {
                        "constructor" => {
                            kind = MethodKind::Constructor;
                            "constructor"
                        },
                        name => name
                    };
''')],
  main(r'''
    same("static", code("class A { static get constructor() {} }", true), "class A{static get constructor(){}}");
'''))

s('C16-continue-parent','C16','a continue statement somewhere in the visited program',
  'a parent is pushed for the continue statement but never popped: the stack of parents is off for everything that follows',
  [('ratel-visitor/src/statement.rs','''                visitor.on_continue_statement(continue_statement, self);
                visitor.push_parent(ParentNode::from(self));
                continue_statement.visit_with(visitor);
''','''                visitor.on_continue_statement(continue_statement, self);
                visitor.push_parent(ParentNode::from(self));
                // Labels aren't variables, there are no children to visit
                return;
''')],
  main(r'''
    use ratel_visitor::{Visitor, Visitable, ParentNode};

    struct Depth(i64);

    impl<'ast> Visitor<'ast> for Depth {
        fn push_parent(&mut self, _: ParentNode<'ast>) { self.0 += 1; }
        fn pop_parent(&mut self) { self.0 -= 1; }
    }

    let module = ratel::parse("a: for(;;) { break; continue a; } b;").unwrap();
    let mut depth = Depth(0);
    module.visit_with(&mut depth);
    same("parents left", depth.0.to_string(), "0");
'''))

s('C17-use-declared','C17','a name that is used in the scope it has been declared in, after the declaration',
  'the use is not recorded',
  [('ratel-transformer/src/scope.rs','''        self.current.get().used_refs.insert(self.arena, *ident, ());
''','''        let scope = self.current.get();

        // Only references to something outside are of interest
        if !scope.declared_refs.contains_key(*ident) {
            scope.used_refs.insert(self.arena, *ident, ());
        }
''')],
  main(r'''
    let module = ratel::parse("var a = 1; b(a);").unwrap();
    let scope = ratel_transformer::scope::analyze(&module);
    same("a", scope.used_refs.contains_key("a").to_string(), "true");
'''))

s('C18-return-loc','C18','an arrow function whose body is an expression, nested in another one of the same shape with parameters',
  'the parameters of the inner function are the ones of the outer one after the transformation',
  [('ratel-transformer/src/es2015/arrow.rs','''            params: node.params,
''','''            params: match node.body {
                // A function without parameters of its own can share the list
                ArrowBody::Expression(ref expr) if node.params.is_empty() => match expr.item {
                    Expression::Arrow(ref inner) => inner.params,
                    _                            => node.params,
                },
                _ => node.params,
            },
''')],
  main(r'''
    let mut module = ratel::parse("x = () => a => b").unwrap();
    {
        let module: *mut ratel::Module<'static> = unsafe { std::mem::transmute(&mut module) };
        ratel_transformer::transform(unsafe { &mut *module });
    }
    same("transformed", ratel_codegen::codegen(&module, true), "x=function(){return function(a){return b;};};");
'''))
