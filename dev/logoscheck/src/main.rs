use logos::Logos;
#[derive(Logos,Debug,PartialEq,Clone)]
enum B { #[regex(r#"\*/[\t\v\f\r ]*"#)] End, #[token("/*")] Start, #[token("\n")] Nl }
#[derive(Logos,Debug,PartialEq,Clone)]
#[logos(subpattern hex = r"[0-9A-Fa-f]")]
enum C { #[regex(r#"[^\x00\n\\'"]+"#)] Un, #[regex(r#"['"]"#)] Te,
 #[regex(r#"\\[xX](?&hex)(?&hex)?"#)] #[regex(r#"\\[0-7][0-7]?[0-7]?"#)] #[regex(r#"\\[abfnrtv?\\'"]"#)] By,
 #[regex(r#"\\u(?&hex)(?&hex)(?&hex)(?&hex)"#)] #[regex(r#"\\U(?&hex)(?&hex)(?&hex)(?&hex)(?&hex)(?&hex)(?&hex)(?&hex)"#)] Ch }
fn bm(s:&str)->Option<B>{ let c:Vec<char>=s.chars().collect(); if s=="/*"{return Some(B::Start)} if s=="\n"{return Some(B::Nl)} if c.len()>=2&&c[0]=='*'&&c[1]=='/'&&c[2..].iter().all(|x|" \t\x0b\x0c\r".contains(*x)){return Some(B::End)} None}
fn cm(s:&str)->Option<C>{ let c:Vec<char>=s.chars().collect(); let n=c.len(); if n==0{return None}
 if c.iter().all(|x|!"\0\n\\'\"".contains(*x)){return Some(C::Un)} if n==1&&"'\"".contains(c[0]){return Some(C::Te)}
 if c[0]!='\\'||n<2{return None} let hx=|a:&[char]|a.iter().all(|x|x.is_ascii_hexdigit());
 if (c[1]=='x'||c[1]=='X')&&(n==3||n==4)&&hx(&c[2..]){return Some(C::By)}
 if n<=4&&c[1..].iter().all(|x|('0'..='7').contains(x)){return Some(C::By)}
 if n==2&&"abfnrtv?\\'\"".contains(c[1]){return Some(C::By)}
 if c[1]=='u'&&n==6&&hx(&c[2..]){return Some(C::Ch)} if c[1]=='U'&&n==10&&hx(&c[2..]){return Some(C::Ch)} None}
fn cprefix(s:&str)->bool{ // proper beginning of a match
 let c:Vec<char>=s.chars().collect(); if c[0]!='\\'{return false} if c.len()==1{return true}
 let hx=|a:&[char]|a.iter().all(|x|x.is_ascii_hexdigit());
 ((c[1]=='x'||c[1]=='X')&&c.len()==2)||(c[1]=='u'&&c.len()<6&&hx(&c[2..]))||(c[1]=='U'&&c.len()<10&&hx(&c[2..]))}
fn check<'a,T:Logos<'a,Source=str>+PartialEq+std::fmt::Debug>(s:&'a str,m:&dyn Fn(&str)->Option<T>,pre:&dyn Fn(&str)->bool)->bool where T::Extras:Default{
 let mut l=T::lexer(s); let mut at=0;
 loop { let r=l.next(); let sp=l.span();
  match r { None=>{return at==s.len()},
   Some(x)=>{ if sp.start!=at{println!("gap {s:?}");return false}
    let rest=&s[at..]; let longest=(1..=rest.len()).rev().filter(|k|rest.is_char_boundary(*k)).find_map(|k|m(&rest[..k]).map(|t|(k,t)));
    let ok=match (x,longest){(Ok(t),Some((k,u)))=>t==u&&sp.end-at==k,(Err(_),None)=>{let t=&s[at..sp.end];t.chars().count()==1||pre(t)},_=>false};
    if !ok{println!("BAD {s:?} at {at} span {sp:?}");return false} at=sp.end } } } }
fn gen(al:&[&str],n:usize,f:&mut dyn FnMut(&str)){ fn go(al:&[&str],n:usize,s:&mut String,f:&mut dyn FnMut(&str)){f(s);if n==0{return} for a in al{let k=s.len();s.push_str(a);go(al,n-1,s,f);s.truncate(k);}} go(al,n,&mut String::new(),f)}
fn main(){ let mut n=0u64;let mut bad=0;
 gen(&["*","/","\n","a"," ","é","\r"],7,&mut|s|{n+=1;if !check::<B>(s,&bm,&|_|false){bad+=1}});
 gen(&["\\","x","u","U","0","8","f","\"","'","\n","\0","é"],6,&mut|s|{n+=1;if !check::<C>(s,&cm,&cprefix){bad+=1}});
 for i in 0..9{ for j in ["","g","\\","\n","é"]{ let s=format!("\\U{}{}",&"0001F600"[..i.min(8)],j); n+=1;if !check::<C>(&s,&cm,&cprefix){bad+=1}; let s=format!("\\u{}{}",&"0001F600"[..i.min(8)],j); if !check::<C>(&s,&cm,&cprefix){bad+=1}}}
 println!("{n} {bad}"); }
