#pragma once
#include "SocketFactory.h"
#include "TcpConnection.h"
#include "TcpServer.h"
