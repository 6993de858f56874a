// Package dbx gives the monitors databases on the private MySQL server of the run, made with the
// schema script of the tree under test.
package dbx

import (
	"bytes"
	"context"
	"database/sql"
	"fmt"
	"os"
	"os/exec"
	"sync"
	"time"

	"github.com/netsec-ethz/fpki/pkg/db"
	"github.com/netsec-ethz/fpki/pkg/db/mysql"
	"github.com/netsec-ethz/fpki/tools"
)

// Create makes (or re-creates) a database and returns its configuration.
func Create(name string) {
	cmd := exec.Command("bash")
	cmd.Stdin = bytes.NewBufferString(tools.CreateSchemaScript() + "\ncreate_new_db " + name + "\n")
	out, err := cmd.CombinedOutput()
	if err != nil {
		panic(fmt.Sprintf("environment: creating database %s: %v: %s", name, err, out))
	}
}

// Config is the connection configuration of a database.
func Config(name string) *db.Configuration {
	return db.NewConfig(mysql.WithDefaults(), mysql.WithEnvironment(), db.WithDB(name))
}

// Connect opens it.
func Connect(name string) db.Conn {
	c, err := mysql.Connect(Config(name))
	if err != nil {
		panic("environment: " + err.Error())
	}
	return c
}

// DSN for programs that take one from the environment.
func Env(name string) []string { return append(os.Environ(), "MYSQL_DBNAME="+name) }

var allTables = []string{"tree", "root", "domains", "certs", "domain_certs", "policies",
	"domain_policies", "domain_payloads", "dirty", "ctlog_server_last_status"}

// Reset empties every table (cheaper than creating the partitioned tables anew).
func Reset(c *sql.DB) {
	var wg sync.WaitGroup
	for _, t := range allTables {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
			defer cancel()
			if _, err := c.ExecContext(ctx, "DELETE FROM "+t); err != nil {
				panic("environment: reset " + t + ": " + err.Error())
			}
		}()
	}
	wg.Wait()
}

// Rows reads a query as strings of raw bytes.
func Rows(c *sql.DB, q string, args ...any) [][]string {
	rows, err := c.Query(q, args...)
	if err != nil {
		panic("environment: " + q + ": " + err.Error())
	}
	defer rows.Close()
	cols, _ := rows.Columns()
	var res [][]string
	for rows.Next() {
		raw := make([]sql.RawBytes, len(cols))
		ptr := make([]any, len(cols))
		for i := range raw {
			ptr[i] = &raw[i]
		}
		if err := rows.Scan(ptr...); err != nil {
			panic("environment: " + err.Error())
		}
		r := make([]string, len(cols))
		for i := range raw {
			if raw[i] == nil {
				r[i] = "\x00NULL"
			} else {
				r[i] = string(raw[i])
			}
		}
		res = append(res, r)
	}
	if err := rows.Err(); err != nil {
		panic("environment: " + err.Error())
	}
	return res
}

// Count is a SELECT COUNT(*) from a table.
func Count(c *sql.DB, table string) int {
	var n int
	if err := c.QueryRow("SELECT COUNT(*) FROM " + table).Scan(&n); err != nil {
		panic("environment: " + err.Error())
	}
	return n
}
