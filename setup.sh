#!/bin/bash
bash /verif/build.sh
