#!/bin/bash
echo
