// Command ingest monitors the bulk insertion pipeline, the offline ingestion tool and its journal.
package main

import (
	"os"

	"github.com/netsec-ethz/fpki/zzverif/lib"
)

func main() {
	if os.Getenv("VERIF_CHILD") == "journal" {
		i03child()
		return
	}
	lib.Main(map[string]func(*lib.R){
		"I01": i01,
		"I02": i02,
		"I03": i03,
	})
}
