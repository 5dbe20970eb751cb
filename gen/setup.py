"""Builds the harnesses."""
import cli
import cloud
import common
import hw

common.build()
cloud.build()
hw.build()
cli.build()
