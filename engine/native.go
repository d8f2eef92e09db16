package main

import (
	"bytes"
	"encoding/json"
	"fmt"

	sqlparser "github.com/kwilteam/kwil-db/parse/sql"
)

// jsonEscape renders s as encoding/json does, without the quotes.
func jsonEscape(s string) string {
	b, _ := json.Marshal(s)
	return string(bytes.TrimSuffix(bytes.TrimPrefix(b, []byte{'"'}), []byte{'"'}))
}

// nativeSQL: 0 accepted, 1 rejected by the SQL parser, 2 rejected by ToSQL.
func nativeSQL(s string) (r int64) {
	defer func() {
		if e := recover(); e != nil {
			r = 3
		}
	}()
	t, err := sqlparser.ParseSql(s, 1, nil, false)
	if err != nil {
		return 1
	}
	if _, err := t.ToSQL(); err != nil {
		return 2
	}
	return 0
}

func jsonEscapePlain(s string) string {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	e.Encode(s)
	x := bytes.TrimSuffix(b.Bytes(), []byte{'\n'})
	return string(bytes.TrimSuffix(bytes.TrimPrefix(x, []byte{'"'}), []byte{'"'}))
}

// nativeSQLText is the text of the error nativeSQL stands for.
func nativeSQLText(s string) (r string) {
	defer func() {
		if e := recover(); e != nil {
			r = fmt.Sprint(e)
		}
	}()
	t, err := sqlparser.ParseSql(s, 1, nil, false)
	if err != nil {
		return err.Error()
	}
	if _, err := t.ToSQL(); err != nil {
		return err.Error()
	}
	return ""
}
