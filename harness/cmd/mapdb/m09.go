package main

import (
	"context"
	"database/sql"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/netsec-ethz/fpki/pkg/common"
	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/db/mysql"
	"github.com/netsec-ethz/fpki/zzverif/dbx"
	"github.com/netsec-ethz/fpki/zzverif/lib"
)

const (
	mUser, mPass, mHost, mPort, mSock = "MYSQL_USER", "MYSQL_PASSWORD", "MYSQL_HOST", "MYSQL_PORT", "MYSQL_LOCALSOCKET"
)

type account struct {
	name, password string
	dbs            map[string]bool // nil for all
}

// target is what a configuration must lead to.
type target struct {
	user, pass, host, port, sock, db string
	session                          map[string]string
	ok                               bool
	why                              string
}

// runM09 opens databases with generated configurations and asks the server what it sees.
func runM09(r *lib.R) {
	r.Rule("generated sequences of configuration modifiers, environment variables, explicit DSNs, extra session values and configurations read back from a file, " +
		"against accounts with passwords of every form and several databases: every pooled session is at the server, account, database and session settings " +
		"that a reference computes, also after sessions were cut, and a configuration that cannot work is an error and reaches nothing")
	realPort, realSock := os.Getenv(mPort), os.Getenv("VERIF_MYSQL_SOCK")
	if realPort == "" {
		realPort = "3306"
	}
	admin, err := sql.Open("mysql", "root@unix("+realSock+")/mysql?interpolateParams=true")
	if err != nil {
		panic("environment: " + err.Error())
	}
	defer admin.Close()
	// Databases with different contents.
	dbs := []string{"fpki", "m09_one", "m09-two", "M09$three"}
	roots := map[string]common.SHA256Output{}
	for i, d := range dbs {
		if i < 2 {
			dbx.Create(d)
		} else {
			exec(admin, "DROP DATABASE IF EXISTS `"+d+"`")
			exec(admin, "CREATE DATABASE `"+d+"`")
			exec(admin, "CREATE TABLE `"+d+"`.root LIKE fpki.root")
		}
		roots[d] = common.SHA256Hash32Bytes([]byte(d))
		h := roots[d]
		exec(admin, "REPLACE INTO `"+d+"`.root (key32) VALUES (x'"+fmt.Sprintf("%x", h[:])+"')")
	}
	exec(admin, "DROP DATABASE IF EXISTS m09_empty")
	exec(admin, "CREATE DATABASE m09_empty")
	// Accounts.
	rng := r.Rand("m09")
	passwords := []string{"", "simple", "p@ss", "a:b", "a/b", "what?x=y&z", "50%41", "(x)", " sp ace ", "tcp(1.2.3.4:5)/fpki", "#", "'\"`\\", "ünï"}
	accounts := map[string]*account{"root": {name: "root"}}
	var names []string
	for i, p := range passwords {
		for k := 0; k < 2; k++ {
			a := &account{name: fmt.Sprintf("m09u%d%c", i, 'a'+k), password: p}
			if k == 1 {
				a.dbs = map[string]bool{dbs[rng.IntN(len(dbs))]: true, dbs[rng.IntN(len(dbs))]: true}
				if p != "" {
					a.password = p + fmt.Sprint(rng.IntN(1000))
				}
			}
			if k == 0 && i%3 == 1 {
				a.name += "-x.y"
			}
			plugin := []string{"caching_sha2_password", "mysql_native_password"}[rng.IntN(2)]
			exec(admin, "DROP USER IF EXISTS `"+a.name+"`@'%'")
			exec(admin, "CREATE USER `"+a.name+"`@'%' IDENTIFIED WITH "+plugin+" BY "+quote(a.password))
			if a.dbs == nil {
				exec(admin, "GRANT SELECT ON *.* TO `"+a.name+"`@'%'")
			}
			for d := range a.dbs {
				exec(admin, "GRANT SELECT ON `"+strings.ReplaceAll(d, "_", "\\_")+"`.* TO `"+a.name+"`@'%'")
			}
			accounts[a.name] = a
			names = append(names, a.name)
		}
	}
	defer func() {
		for _, n := range names {
			exec(admin, "DROP USER IF EXISTS `"+n+"`@'%'")
		}
	}()
	m := &m09{r: r, admin: admin, accounts: accounts, names: names, dbs: dbs, roots: roots, port: realPort, sock: realSock}
	saved := map[string]string{}
	for _, k := range []string{mUser, mPass, mHost, mPort} {
		if v, ok := os.LookupEnv(k); ok {
			saved[k] = v
		}
	}
	n := r.N(2500, 25000)
	for i := 0; i < n && r.NViol() < 8; i++ {
		m.one(i, r.Rand("m09", i))
	}
	for _, k := range []string{mUser, mPass, mHost, mPort} {
		os.Unsetenv(k)
	}
	for k, v := range saved {
		os.Setenv(k, v)
	}
}

func quote(s string) string {
	return "'" + strings.NewReplacer("\\", "\\\\", "'", "\\'").Replace(s) + "'"
}

func exec(c *sql.DB, q string) {
	if _, err := c.Exec(q); err != nil {
		panic("environment: " + q + ": " + err.Error())
	}
}

type m09 struct {
	r          *lib.R
	admin      *sql.DB
	accounts   map[string]*account
	names, dbs []string
	roots      map[string]common.SHA256Output
	port, sock string
	big        bool
}

// one generates a configuration.
func (m *m09) one(i int, rng *rand.Rand) {
	r := m.r
	pick := func() *account {
		if rng.IntN(8) == 0 {
			return m.accounts["root"]
		}
		return m.accounts[m.names[rng.IntN(len(m.names))]]
	}
	acc := pick()
	dbOf := func() string {
		if rng.IntN(10) == 0 {
			return []string{"m09_none", "M09_ONE"}[rng.IntN(2)]
		}
		if acc.dbs != nil && rng.IntN(4) > 0 {
			var l []string
			for d := range acc.dbs {
				l = append(l, d)
			}
			sort.Strings(l)
			return l[rng.IntN(len(l))]
		}
		return m.dbs[rng.IntN(len(m.dbs))]
	}
	// The environment.
	env := map[string]string{}
	for _, k := range []string{mUser, mPass, mHost, mPort} {
		os.Unsetenv(k)
	}
	if rng.IntN(10) > 0 {
		env[mUser] = acc.name
	}
	if rng.IntN(10) > 0 && (acc.password != "" || rng.IntN(2) == 0) {
		env[mPass] = acc.password
		if rng.IntN(10) == 0 {
			env[mPass] = []string{"", "wrong", acc.password + "x", strings.ToUpper(acc.password)}[rng.IntN(4)]
		}
	}
	if rng.IntN(2) == 0 {
		env[mHost] = []string{"127.0.0.1", "127.0.0.1", "localhost"}[rng.IntN(3)]
	}
	switch {
	case rng.IntN(8) > 0:
		env[mPort] = m.port
	case m.port != "3306" || rng.IntN(2) == 0:
		env[mPort] = "1" // nobody listens
	}
	for k, v := range env {
		os.Setenv(k, v)
	}
	// The modifiers.
	vals := map[string]string{"DBNAME": "fpki"}
	session := map[string]string{}
	var mods []db.ConfigurationModFunction
	var text []string
	add := func(name string, f db.ConfigurationModFunction, effect func()) {
		mods = append(mods, f)
		text = append(text, name)
		effect()
	}
	kinds := []int{0, 1, 2, 3, 4, 5}
	rng.Shuffle(len(kinds), func(a, b int) { kinds[a], kinds[b] = kinds[b], kinds[a] })
	if rng.IntN(2) == 0 {
		kinds = []int{0, 1, 2, 3, 4, 5} // as the programs do
	}
	for _, k := range kinds {
		switch k {
		case 0:
			if rng.IntN(5) > 0 {
				add("defaults", mysql.WithDefaults(), func() {
					vals[mUser], vals[mPass], vals[mHost], vals[mPort] = "root", "", "127.0.0.1", ""
					session["transaction_isolation"] = "READ-UNCOMMITTED"
					session["autocommit"] = "1"
					session["collation_connection"] = "binary"
					session["parseTime"] = "true"
				})
			}
		case 1:
			if rng.IntN(8) > 0 {
				add("environment", mysql.WithEnvironment(), func() {
					vals[mUser], vals[mPass], vals[mHost], vals[mPort] = "root", "", "127.0.0.1", ""
					for k, v := range env {
						vals[k] = v
					}
				})
			}
		case 2:
			if rng.IntN(2) == 0 {
				p := m.sock
				if rng.IntN(10) == 0 {
					p += ".gone"
				}
				add("socket "+p, mysql.WithLocalSocket(p), func() { vals[mSock] = p })
			}
		case 3:
			if rng.IntN(4) == 0 {
				u := acc.name
				if rng.IntN(3) == 0 {
					u = pick().name
				}
				add("user "+u, mysql.WithUser(u), func() { vals[mUser] = u })
			}
		case 4:
			if rng.IntN(5) > 0 {
				d := dbOf()
				add("database "+d, db.WithDB(d), func() { vals["DBNAME"] = d })
			}
		case 5:
			if rng.IntN(3) == 0 {
				name, v, want := "", "", ""
				switch rng.IntN(6) {
				case 0:
					name, v, want = "max_execution_time", "12345", "12345"
				case 1:
					name, v, want = "sql_mode", "'ANSI_QUOTES'", "ANSI_QUOTES"
				case 2:
					name, v, want = "transaction_isolation", "'SERIALIZABLE'", "SERIALIZABLE"
				case 3:
					name, v, want = "wait_timeout", "4321", "4321"
				case 4:
					name, v, want = "time_zone", "'+03:00'", "+03:00"
				case 5:
					name, v, want = "parseTime", "false", "false"
				}
				add(name+"="+v, func(c *db.Configuration) *db.Configuration {
					c.Values[name] = v
					return c
				}, func() { session[name] = want })
			}
		}
	}
	conf := db.NewConfig(mods...)
	t := target{user: vals[mUser], pass: vals[mPass], host: vals[mHost], port: vals[mPort], sock: vals[mSock], db: vals["DBNAME"], session: session}
	// An explicit DSN instead.
	if rng.IntN(6) == 0 {
		t.user, t.pass, t.db, t.host, t.port, t.sock = acc.name, acc.password, dbOf(), "127.0.0.1", m.port, ""
		addr := "tcp(127.0.0.1:" + m.port + ")"
		if rng.IntN(2) == 0 {
			addr, t.sock = "unix("+m.sock+")", m.sock
		}
		dsn := t.user + ":" + t.pass + "@" + addr + "/" + t.db
		if rng.IntN(2) == 0 {
			dsn += "?lock_wait_timeout=77"
			t.session["lock_wait_timeout"] = "77"
		}
		v := map[string]string{}
		for k, x := range conf.Values {
			if !strings.HasPrefix(k, "MYSQL_") && k != db.KeyDBName {
				v[k] = x
			}
		}
		conf = &db.Configuration{Dsn: dsn, DBName: t.db, Values: v}
		text = append(text, "DSN "+dsn)
	}
	if rng.IntN(3) == 0 {
		// Written to a file and read back.
		raw, err := json.Marshal(conf)
		back := &db.Configuration{}
		if err == nil {
			err = json.Unmarshal(raw, back)
		}
		if err != nil {
			r.Violatedf("M09/encode", "%v: %v", text, err)
			return
		}
		conf = back
		text = append(text, "read back")
	}
	checkSchema := t.user == "root" && rng.IntN(2) == 0
	conf.CheckSchema = checkSchema
	// What must happen.
	a := m.accounts[t.user]
	exists := false
	for _, d := range m.dbs {
		exists = exists || d == t.db
	}
	port := t.port
	if port == "" {
		port = "3306"
	}
	switch {
	case t.sock != "" && t.sock != m.sock:
		t.why = "no such socket"
	case t.sock == "" && t.host == "":
		return // the address is left to the driver
	case t.sock == "" && port != m.port && port != "1":
		return // may be somebody else's
	case t.sock == "" && port == "1":
		t.why = "nobody listens"
	case a == nil:
		t.why = "no such account"
	case a.password != t.pass:
		t.why = "wrong password"
	case !exists:
		t.why = "no such database"
	case a.dbs != nil && !a.dbs[t.db]:
		t.why = "not allowed for the account"
	case checkSchema && t.db != "fpki" && t.db != "m09_one":
		t.why = "the tables of the schema are missing"
	default:
		t.ok = true
	}
	var es []string
	for k, v := range env {
		es = append(es, k+"="+v)
	}
	sort.Strings(es)
	what := fmt.Sprintf("case %d: environment %q, configuration %q, check of the schema %v", i, es, text, checkSchema)
	m.open(conf, t, what, rng)
	if rng.IntN(3) == 0 {
		// The same configuration again.
		m.open(conf, t, what+", opened again", rng)
	}
	how := "tcp"
	if t.sock != "" {
		how = "socket"
	}
	r.Seen("outcomes", how, t.ok, t.why, len(text))
	r.Case(true, what)
}

// open connects and compares what the server tells.
func (m *m09) open(conf *db.Configuration, t target, what string, rng *rand.Rand) {
	r := m.r
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	conn, err := mysql.Connect(conf)
	if err == nil {
		defer conn.Close()
		err = conn.DB().PingContext(ctx)
	}
	if !t.ok {
		r.Count("configurations that cannot work", 1)
		if err == nil {
			_, lerr := conn.LoadRoot(ctx)
			r.Violatedf("M09/accepted", "%s: opens (reading: %v), although: %s", what, lerr, t.why)
		}
		return
	}
	if err != nil {
		r.Violatedf("M09/refused", "%s: %v", what, err)
		return
	}
	if n := conn.DB().Stats().InUse; n != 0 {
		r.Violatedf("M09/in-use", "%s: %d sessions of a new connection are in use", what, n)
		return
	}
	root, err := conn.LoadRoot(ctx)
	if err != nil || root == nil || *root != m.roots[t.db] {
		r.Violatedf("M09/database", "%s: the root read is %v (error %v) instead of that of %s", what, root, err, t.db)
		return
	}
	if t.session["collation_connection"] == "binary" && (rng.IntN(60) == 0 || !m.big) {
		// Statements may be as long as the defaults say.
		size := 3 << 20
		if !m.big {
			m.big, size = true, 70<<20
		}
		var n int
		if err := conn.DB().QueryRowContext(ctx, "SELECT LENGTH('"+strings.Repeat("x", size)+"')").Scan(&n); err != nil || n != size {
			r.Violatedf("M09/packet", "%s: a statement of %d bytes fails: %d %v", what, size, n, err)
		}
		r.Count("long statements", 1)
	}
	// Several sessions at once.
	n := 1 + rng.IntN(6)
	m.sessions(ctx, conn, t, what, n)
	if rng.IntN(4) == 0 && r.NViol() == 0 {
		// Cut them.
		for _, row := range dbx.Rows(m.admin, "SELECT id FROM information_schema.processlist WHERE user="+quote(t.user)+" AND id<>CONNECTION_ID()") {
			if t.user != "root" {
				m.admin.Exec("KILL " + row[0])
			}
		}
		if t.user != "root" {
			var root *common.SHA256Output
			for k := 0; k < 200; k++ {
				if root, err = conn.LoadRoot(ctx); err == nil {
					break
				}
				time.Sleep(10 * time.Millisecond)
			}
			if err != nil || root == nil || *root != m.roots[t.db] {
				r.Violatedf("M09/cut", "%s: after the sessions were cut the root read is %v (error %v)", what, root, err)
				return
			}
			r.Count("connections that went on after their sessions were cut", 1)
			m.sessions(ctx, conn, t, what+", after a cut", n)
		}
	}
	if err := conn.Close(); err != nil {
		r.Violatedf("M09/close", "%s: %v", what, err)
	}
	if _, err := conn.LoadRoot(ctx); err == nil {
		r.Violatedf("M09/close", "%s: still reads after Close", what)
	}
	if t.user != "root" {
		left := 1
		for k := 0; k < 500 && left > 0; k++ {
			if k > 0 {
				time.Sleep(10 * time.Millisecond)
			}
			left = len(dbx.Rows(m.admin, "SELECT id FROM information_schema.processlist WHERE user="+quote(t.user)))
		}
		if left > 0 {
			r.Violatedf("M09/close", "%s: %d sessions remain at the server after Close", what, left)
		}
	}
}

// sessions looks at n sessions of a pool.
func (m *m09) sessions(ctx context.Context, conn db.Conn, t target, what string, n int) {
	r := m.r
	names := []string{"transaction_isolation", "autocommit", "collation_connection", "max_execution_time", "sql_mode", "wait_timeout", "time_zone", "lock_wait_timeout"}
	var all sync.WaitGroup
	var held sync.WaitGroup
	held.Add(n)
	for k := 0; k < n; k++ {
		all.Add(1)
		go func() {
			defer all.Done()
			c, err := conn.DB().Conn(ctx)
			held.Done()
			if err != nil {
				r.Violatedf("M09/session", "%s: %v", what, err)
				return
			}
			defer c.Close()
			held.Wait() // so that all are different
			var user, name, host string
			if err := c.QueryRowContext(ctx, "SELECT USER(), DATABASE(), (SELECT host FROM information_schema.processlist WHERE id=CONNECTION_ID())").Scan(&user, &name, &host); err != nil {
				r.Violatedf("M09/session", "%s: %v", what, err)
				return
			}
			if u, _, _ := strings.Cut(user, "@"); u != t.user {
				r.Violatedf("M09/user", "%s: a session is of %s instead of %s", what, user, t.user)
			}
			if name != t.db {
				r.Violatedf("M09/database", "%s: a session is at database %s instead of %s", what, name, t.db)
			}
			if tcp := strings.Contains(host, ":"); tcp != (t.sock == "") {
				r.Violatedf("M09/transport", "%s: a session comes from %s, socket configured: %v", what, host, t.sock != "")
			}
			r.Count("sessions examined", 1)
			for _, v := range names {
				want, ok := t.session[v]
				if !ok {
					continue
				}
				var got string
				if err := c.QueryRowContext(ctx, "SELECT @@SESSION."+v).Scan(&got); err != nil {
					r.Violatedf("M09/session", "%s: %s: %v", what, v, err)
					return
				}
				if got != want {
					r.Violatedf("M09/setting", "%s: a session has %s %s instead of %s", what, v, got, want)
				}
				r.Count("session settings compared", 1)
			}
			var at time.Time
			switch err := c.QueryRowContext(ctx, "SELECT CAST('2024-02-29 12:34:56' AS DATETIME)").Scan(&at); {
			case t.session["parseTime"] == "true" && (err != nil || at.Unix() != 1709210096):
				r.Violatedf("M09/time", "%s: an instant is read as %v (error %v)", what, at, err)
			case t.session["parseTime"] != "true" && err == nil:
				r.Violatedf("M09/time", "%s: instants are parsed, which was not asked for", what)
			}
		}()
	}
	all.Wait()
}
