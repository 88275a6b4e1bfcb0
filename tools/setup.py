#!/usr/bin/env python3
"""Builds the executor once; the checks build the rest from /repo."""
import os, subprocess, sys
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
sys.exit(subprocess.run(['cargo', 'build', '--release', '--offline', '--target-dir', V + '/target/sx'], cwd=V + '/sx',
                        env=dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu')).returncode)
