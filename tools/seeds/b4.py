S=[]
def s(ID,PROP,NEEDS,BREAKS,EDITS,MAIN,FILES=None): S.append(dict(ID=ID,PROP=PROP,NEEDS=NEEDS,BREAKS=BREAKS,EDITS=EDITS,MAIN=MAIN,FILES=FILES or {}))
s('C04-fraction-digits','C04','a fractional number literal of so many digits that dividing its digits by a power of ten rounds twice',
  'the ESTree value is off by one unit in the last place',
  [('ratel/src/astgen/value.rs','''                        let value: f64 = number.parse().expect("Invalid number");
''','''                        let value = float_value(number);
'''),('ratel/src/astgen/value.rs','''#[inline]
pub fn is_float(''','''/// Value of a float literal. Those without an exponent are most common and easily read.
#[inline]
fn float_value(number: &str) -> f64 {
    let plain = number.len() < 20 && number.bytes().all(|byte| byte == b'.' || byte.is_ascii_digit());

    if !plain {
        return number.parse().expect("Invalid number");
    }

    let digits = number.bytes().filter(|byte| *byte != b'.').fold(0u64, |sum, byte| sum * 10 + u64::from(byte - b'0'));
    let places = number.len() - 1 - number.find('.').unwrap_or(number.len() - 1);

    digits as f64 / 10f64.powi(places as i32)
}

#[inline]
pub fn is_float(''')],
  main(r'''
    for &source in &["0.5", "1.25", "3.14159", "0.1234567890123456", "9007199254740993.5", "0.30000000000000004", "123456789.12345678", "5.000000000000001", "0.000000000000000001", "9.87654321987654321", "72057594037927945.5", "9.007199254740993", "9007199254740993.0", "4503599627370497.25", "3.0000000000000004", "123.45678901234567", "0.1000000000000000055"] {
        let value = format!("\"value\":{},", serde_json::to_string(&source.parse::<f64>().unwrap()).unwrap());
        let json = json(&format!("x={}", source));
        same(source, if json.contains(&value) { value.clone() } else { json }, &value);
    }
'''))
s('C08-meta-prefix','C08','`new.` followed by a word that begins with `target`',
  'an invalid program is accepted',
  [('ratel/src/parser/expression.rs','''        if property != "target" {
''','''        if !property.starts_with("target") {
''')],
  main(r'''
    for &(source, valid) in &[("function f() { new.target; }", true), ("function f() { new.tar; }", false), ("function f() { new.targets; }", false), ("function f() { new.target1.a; }", false)] {
        if ratel::parse(source).is_ok() != valid {
            println!("{} is {}", source, if valid { "rejected" } else { "accepted" });
            std::process::exit(1);
        }
    }
'''))
s('C11-empty-quasi','C11','a template literal with two placeholders next to each other, not at its beginning or end',
  'the ESTree has no quasi between them, the text after it moves',
  [('ratel/src/astgen/value.rs','''        let mut quasis = (self.0).iter().peekable();
''','''        // Of the empty ones, only the outer are of use
        let first = (self.0).iter().next().map(|q| q.start);
        let last = (self.0).iter().last().map(|q| q.end);
        let mut quasis = (self.0).iter().filter(|q| {
            !q.item.is_empty() || Some(q.start) == first || Some(q.end) == last
        }).peekable();
''')],
  main(r'''
    for &source in &["`${a}`", "`a${b}c`", "`a${b}${c}d`", "`${a}${b}`"] {
        let value: serde_json::Value = serde_json::from_str(&json(source)).unwrap();
        let template = &value["body"][0]["expression"];
        let quasis = template["quasis"].as_array().unwrap().len();
        same(source, quasis.to_string(), &(template["expressions"].as_array().unwrap().len() + 1).to_string());
    }
'''))
s('C12-dent-template','C12','a template literal or string of several lines inside of a block, printed without minifying',
  'its text changes: the lines are indented',
  [('ratel-codegen/src/lib.rs','''impl Generator for PrettyGenerator {
    type Output = String;

    fn consume(self) -> String {
        unsafe { String::from_utf8_unchecked(self.code) }
    }

    #[inline]
    fn write_byte(&mut self, ch: u8) {
        self.code.push(ch);
    }

    #[inline]
    fn write_pretty(&mut self, ch: u8) {
        self.code.push(ch);
    }

    #[inline]
    fn last_byte(&self) -> Option<u8> {
        self.code.last().cloned()
    }

    #[inline]
    fn write_bytes(&mut self, slice: &[u8]) {
        extend_from_slice(&mut self.code, slice);
    }
''','''impl Generator for PrettyGenerator {
    type Output = String;

    fn consume(self) -> String {
        unsafe { String::from_utf8_unchecked(self.code) }
    }

    #[inline]
    fn write_byte(&mut self, ch: u8) {
        self.code.push(ch);
    }

    #[inline]
    fn write_pretty(&mut self, ch: u8) {
        self.code.push(ch);
    }

    #[inline]
    fn last_byte(&self) -> Option<u8> {
        self.code.last().cloned()
    }

    #[inline]
    fn write_bytes(&mut self, slice: &[u8]) {
        let mut lines = slice.split(|byte| *byte == b'\\n');

        if let Some(line) = lines.next() {
            extend_from_slice(&mut self.code, line);
        }

        for line in lines {
            self.new_line();
            extend_from_slice(&mut self.code, line);
        }
    }
''')],
  main(r'''
    for &source in &["x=`a\nb`", "if(x){y=`a\nb${c}\n`;}", "function f(){return 'a\\\nb';}"] {
        for &minify in &[true, false] {
            let code = code(source, minify);
            if !code.contains("a\nb") && !code.contains("a\\\nb") {
                println!("the text of a literal has changed: {}", code);
                std::process::exit(1);
            }
        }
    }
'''))
s('C13-return-prefix','C13','minifying a return statement whose value starts with a unary operator that is a word',
  'the keyword and the operator are glued together',
  [('ratel-codegen/src/statement.rs','''                gen.write_bytes(b"return ");
                gen.write(value);
''','''                gen.write_bytes(b"return");
                match value.item {
                    ratel::ast::Expression::Prefix(_) |
                    ratel::ast::Expression::Array(_)  |
                    ratel::ast::Expression::Object(_) => gen.write_pretty(b' '),
                    _                     => gen.write_byte(b' '),
                }
                gen.write(value);
''')],
  main(r'''
    for &source in &["function f(){return[a];}", "function f(){return!a;}", "function f(){return typeof a;}", "function f(){return new A;}", "function f(){return-a;}"] {
        let minified = code(source, true);
        let again = code(&minified, true);
        let names = |json: String| { let v: serde_json::Value = serde_json::from_str(&json).unwrap_or(serde_json::Value::Null); v["body"][0]["body"]["body"][0]["type"].to_string() };
        same(source, names(json(&minified)), "\"ReturnStatement\"");
        same(source, again, &minified);
    }
'''))
s('C16-else-if','C16','an `else if`',
  'the visitor is not told about the if statement in the else branch, and its parts are reported below the outer one',
  [('ratel-visitor/src/statement.rs','''        self.test.visit_with(visitor);
        self.consequent.visit_with(visitor);
        self.alternate.visit_with(visitor);
    }
}

impl<'ast> Visitable<'ast> for WhileStatement''','''        let mut branch = self;

        // Long chains shouldn't need a deep stack
        loop {
            branch.test.visit_with(visitor);
            branch.consequent.visit_with(visitor);

            branch = match branch.alternate {
                Some(ref alternate) => match alternate.item {
                    Statement::If(ref next) => next,
                    _ => return alternate.visit_with(visitor),
                },
                None => return,
            };
        }
    }
}

impl<'ast> Visitable<'ast> for WhileStatement''')],
  main(r'''
    struct Count(usize);
    impl<'ast> ratel_visitor::Visitor<'ast> for Count {
        fn on_if_statement(&mut self, _: &ratel::ast::statement::IfStatement, _: &'ast ratel::ast::StatementNode<'ast>) { self.0 += 1; }
    }
    for &(source, ifs) in &[("if(a)b;", 1), ("if(a)b;else c;", 1), ("if(a)b;else if(c)d;", 2), ("if(a){if(b)c;}else if(d)e;else if(f)g;else h;", 4)] {
        let module = ratel::parse(source).unwrap();
        let mut count = Count(0);
        use ratel_visitor::Visitable;
        module.visit_with(&mut count);
        same(source, count.0.to_string(), &ifs.to_string());
    }
'''))
s('C17-idle-scope','C17','a function or block in which no name occurs, but `this` does',
  'its scope is missing from the tree of scopes',
  [('ratel-transformer/src/scope.rs','''        self.current.get().children.push(self.arena, popped);
''','''        // No use in keeping scopes nobody looks anything up in
        let idle = popped.used_refs.is_empty()
            && popped.declared_refs.is_empty()
            && popped.children.as_list().is_empty()
            && popped.kind == ScopeKind::Function;

        if !idle {
            self.current.get().children.push(self.arena, popped);
        }
''')],
  main(r'''
    for &(source, scopes) in &[("function f(a){b}", 1), ("x=function(){return this}", 1), ("x=function(){1}", 1), ("x={m(){this.a=1}};{}", 2)] {
        let module = ratel::parse(source).unwrap();
        let root = ratel_transformer::scope::analyze(&module);
        same(source, root.children.as_list().iter().count().to_string(), &scopes.to_string());
    }
'''))
s('C15-same-shorthand','C15','an object with a key and a value of the same name, written out',
  'the property counts as a shorthand one',
  [('ratel/src/astgen/value.rs','''                self.in_loc(serializer, "Property", 6, |state| {
                    state.serialize_field("key", &*key)?;
                    state.serialize_field("method", &false)?;
                    state.serialize_field("shorthand", &false)?;
''','''                let shorthand = match (key.item, value.item) {
                    (PropertyKey::Literal(key), Expression::Identifier(name)) => key == name,
                    _ => false,
                };

                self.in_loc(serializer, "Property", 6, |state| {
                    state.serialize_field("key", &*key)?;
                    state.serialize_field("method", &false)?;
                    state.serialize_field("shorthand", &shorthand)?;
''')],
  main(r'''
    for &source in &["x={a:b}", "x={a:a}", "x={'a':a}", "x={1:a}", "x={a:a.a}"] {
        let value: serde_json::Value = serde_json::from_str(&json(source)).unwrap();
        same(source, value["body"][0]["expression"]["right"]["properties"][0]["shorthand"].to_string(), "false");
    }
'''))
s('C05-arrow-body','C05','an arrow function whose body is an assignment or another arrow function',
  'the program is rejected or means another',
  [('ratel/src/parser/expression.rs','''ArrowBody::Expression(self.expression::<B0>()),''','''ArrowBody::Expression(self.expression::<::parser::nested::B5>()),''')],
  main(r'''
    for &source in &["x=a=>b", "x=a=>b+c", "x=a=>b?c:d", "x=a=>b=c", "x=a=>b+=c"] {
        let value: serde_json::Value = serde_json::from_str(&json(source)).unwrap_or(serde_json::Value::Null);
        same(source, value["body"][0]["expression"]["right"]["type"].to_string(), "\"ArrowFunctionExpression\"");
    }
'''))
s('C06-for-update','C06','a for statement whose last part is a sequence that begins with a parenthesis',
  'the program is rejected',
  [('ratel/src/parser/statement.rs','''                let update = self.expression::<ANY>();
                expect!(self, ParenClose);
''','''                let update = match self.lexer.token {
                    // Already more than one expression, if it is a sequence
                    ParenOpen => self.expression::<B0>(),
                    _         => self.expression::<ANY>(),
                };
                expect!(self, ParenClose);
''')],
  main(r'''
    for &source in &["for(;;a++)b;", "for(;;++a,++b)c;", "for(;;a++,b++)c;", "for(;;(a,b))c;", "for(;;(a),b)c;"] {
        let value: serde_json::Value = serde_json::from_str(&json(source)).unwrap_or(serde_json::Value::Null);
        same(source, value["body"][0]["type"].to_string(), "\"ForStatement\"");
    }
'''))
s('C09-loop-body','C09','a `while` loop with an empty statement as its body',
  'the location of the loop ends at its condition',
  [('ratel/src/parser/statement.rs','''        let body = self.body();

        self.alloc_at_loc(start, body.end, WhileStatement {
            test,
            body,
        })
''','''        let body = self.body();

        // An empty body is no part of the loop
        let end = match body.item {
            Statement::Empty => test.end + 1,
            _                => body.end,
        };

        self.alloc_at_loc(start, end, WhileStatement {
            test,
            body,
        })
''')],
  main(r'''
    for &(source, end) in &[("while(a)b", 9), ("while(a){}", 10), ("while(a);", 9), ("while ( a )\n;", 13)] {
        let value: serde_json::Value = serde_json::from_str(&json(source)).unwrap();
        same(source, value["body"][0]["end"].to_string(), &end.to_string());
    }
'''))
