S=[]
def s(ID, PROP, NEEDS, BREAKS, EDITS, MAIN, FILES=None): S.append(dict(ID=ID,PROP=PROP,NEEDS=NEEDS,BREAKS=BREAKS,EDITS=EDITS,MAIN=MAIN,FILES=FILES or {}))

s('C02-template-escape','C02','a template literal whose last character is a backslash, at the very end of the source',
  'the lexer steps over the terminating NUL byte and keeps reading past the end of the source',
  [('ratel/src/lexer/mod.rs','''                    match self.read_byte() {
                        0 => {
                            self.token = UnexpectedEndOfProgram;
                            return;
                        },
                        _ => self.bump()
                    }
''','''                    match self.read_byte() {
                        b'\\r' => {
                            self.bump();

                            // CRLF is a single line continuation
                            if self.read_byte() == b'\\n' {
                                self.bump();
                            }
                        },
                        _ => self.bump()
                    }
''')],
  main(r'''
    // The source ends at the first NUL, what follows must never be looked at.
    for source in &["`\\\0a`;", "`foo\\\0a`", "`${ a }\\\0`"] {
        let len = source.find('\0').unwrap();
        let mut lexer = unsafe { ratel::lexer::Lexer::from_ptr(source.as_ptr()) };
        for _ in 0..8 {
            if lexer.end() as usize > len {
                println!("{:?}: read up to {}, source ends at {}", source, lexer.end(), len);
                std::process::exit(1);
            }
            if lexer.token == ratel::lexer::Token::BraceClose {
                lexer.read_template_kind();
            } else {
                lexer.consume();
            }
        }
    }
'''))

s('C04-template-dollars','C04','a template literal in which the `${` of a placeholder directly follows another dollar sign',
  'the placeholder is taken for text: the template ends up with one quasi and no expressions',
  [('ratel/src/lexer/mod.rs','''                    match self.read_byte() {
                        b'{' => self.bump(),
                        _    => continue
                    }
''','''                    match self.next_or_brace() {
                        true  => self.bump(),
                        false => continue
                    }
'''),('ratel/src/lexer/mod.rs','''    #[inline]
    fn read_binary(&mut self) {''','''    /// Peek at the byte following a `$` in a template, stepping over literal ones.
    #[inline]
    fn next_or_brace(&mut self) -> bool {
        match self.read_byte() {
            b'{' => true,
            b'$' => {
                self.bump();
                false
            },
            _ => false
        }
    }

    #[inline]
    fn read_binary(&mut self) {''')],
  main(r'''
    let value: serde_json::Value = serde_json::from_str(&json("`$${a}$${b}`")).unwrap();
    let template = &value["body"][0]["expression"];
    same("expressions", template["expressions"].as_array().unwrap().len().to_string(), "2");
    same("quasis", template["quasis"].as_array().unwrap().len().to_string(), "3");
'''))

s('C03-comment-stars','C03','a block comment with an even number of stars before the closing slash, or a line break right after a star inside of it',
  'the comment does not end where it should, or the line break inside of it is not seen',
  [('ratel/src/lexer/mod.rs','''                            0 => return lex.token = UnexpectedEndOfProgram,
                            _ => {}
                        }
''','''                            0 => return lex.token = UnexpectedEndOfProgram,
                            b'*' | b'\\n' | b'\\r' => {},
                            _ => {}
                        }
''' if False else '''                            0 => return lex.token = UnexpectedEndOfProgram,
                            b'*' => {},
                            _ => lex.bump()
                        }
''')],
  main(r'''
    same("line break after a star", json("a/* *\n */b").contains("rejected").to_string(), "false");
    same("rows of stars", json("a/***\n ***/b").contains("rejected").to_string(), "false");
    same("star before CR", json("return/* x *\r*/").contains("rejected").to_string(), "false");
    same("return", code("function f(){return/* *\n*/ a}", true), "function f(){return;a;}");
'''))

s('C05-shift-right','C05','a signed right shift whose right operand is followed by another shift',
  '`a >> b << c` is parsed as `a >> (b << c)`',
  [('ratel/src/parser/nested.rs','binary!(BSR  , B12 => BitShiftRight);','binary!(BSR  , B11 => BitShiftRight);')],
  main(r'''
    same("left associative", code("a>>b<<c", true), "a>>b<<c;");
    let value: serde_json::Value = serde_json::from_str(&json("a>>b<<c")).unwrap();
    same("operator", value["body"][0]["expression"]["operator"].to_string(), "\"<<\"");
'''))

s('C06-for-in-sequence','C06','a for-in statement whose right side is a sequence',
  '`for (a in b, c);` is rejected, although a for-in statement accepts any expression on its right side',
  [('ratel/src/parser/statement.rs','''    fn for_in_statement(&mut self, start: u32, left: Node<'ast, ForInit<'ast>>) -> StatementNode<'ast> {
        let right = self.expression::<ANY>();
''','''    fn for_in_statement(&mut self, start: u32, left: Node<'ast, ForInit<'ast>>) -> StatementNode<'ast> {
        let right = self.expression::<B0>();
''')],
  main(r'''
    let value: serde_json::Value = match serde_json::from_str(&json("for(var a in b,c);")) {
        Ok(value) => value,
        Err(_) => std::process::exit(1),
    };
    same("right", value["body"][0]["right"]["type"].to_string(), "\"SequenceExpression\"");
'''))

s('C07-break-label-newline','C07','a `break` followed by a line break and an identifier',
  'the identifier on the next line becomes the label of the `break`',
  [('ratel/src/parser/statement.rs','''            Asi::ImplicitSemicolon => None,
            Asi::NoSemicolon => {
                let label = self.identifier();
                end = label.end;

                self.expect_semicolon();

                Some(label)
            }
        };

        self.alloc_at_loc(start, end, BreakStatement { label })''','''            Asi::ImplicitSemicolon if self.lexer.token != Identifier => None,
            _ => {
                let label = self.identifier();
                end = label.end;

                self.expect_semicolon();

                Some(label)
            }
        };

        self.alloc_at_loc(start, end, BreakStatement { label })''')],
  main(r'''
    same("two statements", code("while(a){break\nb}", true), "while(a){break;b;}");
'''))

s('C09-try-end','C09','a try statement that has both a catch clause and a finally block',
  'the location of the statement ends with the catch clause',
  [('ratel/src/parser/statement.rs','''                        (Some(handler), Some(block), block.end)''','''                        (Some(handler), Some(block), handler.end)''')],
  main(r'''
    let source = "try{}catch(e){}finally{}";
    let value: serde_json::Value = serde_json::from_str(&json(source)).unwrap();
    same("end", value["body"][0]["end"].to_string(), &source.len().to_string());
'''))

s('C10-width','C10','a rendering in which the last line shown has one digit more than the line of the error, such as an error on line 8 or 98',
  'the line numbers of the excerpt are not aligned and the carets point at the wrong column',
  [('ratel/src/error.rs','''                        for _ in 0..width {
                            write!(f, " ")?;
                        }
''','''                        for _ in 0..log10(lineno + 1) {
                            write!(f, " ")?;
                        }
''')],
  main(r'''
    for before in 0..120 {
        let source = "a;\n".repeat(before) + "foo bar;\nd;\ne;\nf;\n";
        let err = &ratel::parse(&source).unwrap_err()[0];
        let text = ratel::error::ParseError::UnexpectedToken { source: source.clone(), start: err.start, end: err.end }.to_string();
        let lines: Vec<&str> = text.lines().collect();
        let at = lines.iter().position(|line| line.starts_with('>')).unwrap();
        let word = lines[at].find("bar");
        same(&text, format!("{:?}", lines[at + 1].find('^')), &format!("{:?}", word));
    }
'''))

s('C01-import-eof','C01','an import declaration with an unexpected token or the end of the source in its list of specifiers',
  'the parser never returns, and keeps allocating errors',
  [('ratel/src/parser/statement.rs','''                            _ => {
                                self.error::<()>();
                                break;
                            }
                        }
                    }
                },
                OperatorMultiplication => {''','''                            _ => {
                                self.error::<()>();
                            }
                        }
                    }
                },
                OperatorMultiplication => {''')],
  main(r'''
    use std::sync::mpsc::channel;
    use std::time::Duration;
    let (tx, rx) = channel();
    std::thread::spawn(move || {
        let _ = tx.send(ratel::parse("import { a, ").is_err());
    });
    match rx.recv_timeout(Duration::from_secs(3)) {
        Ok(true) => {},
        _ => { println!("no answer"); std::process::exit(1) },
    }
'''))
