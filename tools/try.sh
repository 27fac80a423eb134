#!/bin/bash
/verif/tools/b.sh || exit 1
/verif/tools/sx.sh "$@"
