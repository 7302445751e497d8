// string literals differ (written by tools/mkstr.py)
proof fn strs_types() ensures "string"@ != "xs:string"@, "string"@ != "double"@, "string"@ != "xs:double"@, "string"@ != "decimal"@, "string"@ != "xs:decimal"@, "string"@ != "integer"@, "string"@ != "xs:integer"@, "string"@ != "boolean"@, "string"@ != "xs:boolean"@, "xs:string"@ != "double"@, "xs:string"@ != "xs:double"@, "xs:string"@ != "decimal"@, "xs:string"@ != "xs:decimal"@, "xs:string"@ != "integer"@, "xs:string"@ != "xs:integer"@, "xs:string"@ != "boolean"@, "xs:string"@ != "xs:boolean"@, "double"@ != "xs:double"@, "double"@ != "decimal"@, "double"@ != "xs:decimal"@, "double"@ != "integer"@, "double"@ != "xs:integer"@, "double"@ != "boolean"@, "double"@ != "xs:boolean"@, "xs:double"@ != "decimal"@, "xs:double"@ != "xs:decimal"@, "xs:double"@ != "integer"@, "xs:double"@ != "xs:integer"@, "xs:double"@ != "boolean"@, "xs:double"@ != "xs:boolean"@, "decimal"@ != "xs:decimal"@, "decimal"@ != "integer"@, "decimal"@ != "xs:integer"@, "decimal"@ != "boolean"@, "decimal"@ != "xs:boolean"@, "xs:decimal"@ != "integer"@, "xs:decimal"@ != "xs:integer"@, "xs:decimal"@ != "boolean"@, "xs:decimal"@ != "xs:boolean"@, "integer"@ != "xs:integer"@, "integer"@ != "boolean"@, "integer"@ != "xs:boolean"@, "xs:integer"@ != "boolean"@, "xs:integer"@ != "xs:boolean"@, "boolean"@ != "xs:boolean"@
{

    reveal_strlit("string");
    reveal_strlit("xs:string");
    reveal_strlit("double");
    reveal_strlit("xs:double");
    reveal_strlit("decimal");
    reveal_strlit("xs:decimal");
    reveal_strlit("integer");
    reveal_strlit("xs:integer");
    reveal_strlit("boolean");
    reveal_strlit("xs:boolean");
    assert("string"@.len() != "xs:string"@.len());
    assert("string"@[0] != "double"@[0]);
    assert("string"@.len() != "xs:double"@.len());
    assert("string"@.len() != "decimal"@.len());
    assert("string"@.len() != "xs:decimal"@.len());
    assert("string"@.len() != "integer"@.len());
    assert("string"@.len() != "xs:integer"@.len());
    assert("string"@.len() != "boolean"@.len());
    assert("string"@.len() != "xs:boolean"@.len());
    assert("xs:string"@.len() != "double"@.len());
    assert("xs:string"@[3] != "xs:double"@[3]);
    assert("xs:string"@.len() != "decimal"@.len());
    assert("xs:string"@.len() != "xs:decimal"@.len());
    assert("xs:string"@.len() != "integer"@.len());
    assert("xs:string"@.len() != "xs:integer"@.len());
    assert("xs:string"@.len() != "boolean"@.len());
    assert("xs:string"@.len() != "xs:boolean"@.len());
    assert("double"@.len() != "xs:double"@.len());
    assert("double"@.len() != "decimal"@.len());
    assert("double"@.len() != "xs:decimal"@.len());
    assert("double"@.len() != "integer"@.len());
    assert("double"@.len() != "xs:integer"@.len());
    assert("double"@.len() != "boolean"@.len());
    assert("double"@.len() != "xs:boolean"@.len());
    assert("xs:double"@.len() != "decimal"@.len());
    assert("xs:double"@.len() != "xs:decimal"@.len());
    assert("xs:double"@.len() != "integer"@.len());
    assert("xs:double"@.len() != "xs:integer"@.len());
    assert("xs:double"@.len() != "boolean"@.len());
    assert("xs:double"@.len() != "xs:boolean"@.len());
    assert("decimal"@.len() != "xs:decimal"@.len());
    assert("decimal"@[0] != "integer"@[0]);
    assert("decimal"@.len() != "xs:integer"@.len());
    assert("decimal"@[0] != "boolean"@[0]);
    assert("decimal"@.len() != "xs:boolean"@.len());
    assert("xs:decimal"@.len() != "integer"@.len());
    assert("xs:decimal"@[3] != "xs:integer"@[3]);
    assert("xs:decimal"@.len() != "boolean"@.len());
    assert("xs:decimal"@[3] != "xs:boolean"@[3]);
    assert("integer"@.len() != "xs:integer"@.len());
    assert("integer"@[0] != "boolean"@[0]);
    assert("integer"@.len() != "xs:boolean"@.len());
    assert("xs:integer"@.len() != "boolean"@.len());
    assert("xs:integer"@[3] != "xs:boolean"@[3]);
    assert("boolean"@.len() != "xs:boolean"@.len());
}
proof fn strs_bool() ensures "true"@ != "1"@, "true"@ != "false"@, "true"@ != "0"@, "1"@ != "false"@, "1"@ != "0"@, "false"@ != "0"@
{

    reveal_strlit("true");
    reveal_strlit("1");
    reveal_strlit("false");
    reveal_strlit("0");
    assert("true"@.len() != "1"@.len());
    assert("true"@.len() != "false"@.len());
    assert("true"@.len() != "0"@.len());
    assert("1"@.len() != "false"@.len());
    assert("1"@[0] != "0"@[0]);
    assert("false"@.len() != "0"@.len());
}
