bug('C02_stale_failure', 'C02', [('src/exec/NodeImpl.cc', """    m_outcome = NO_OUTCOME;
    m_failureType = NO_FAILURE;

    specializedReset();""", """    if (m_outcome != INTERRUPTED_OUTCOME)
      m_failureType = NO_FAILURE;
    m_outcome = NO_OUTCOME;

    specializedReset();""")],
    'a repeating node whose first iteration is interrupted and a later one succeeds, and something which looks at its failure type',
    'the failure type of an earlier iteration is still reported after the node started over and succeeded')

bug('C07_wake_first_only', 'C07', [('src/expr/Reservable.cc', """      for (NodeConnector *n : m_waiters)
        n->notifyResourceAvailable();""", """      if (!m_waiters.empty())
        m_waiters.front()->notifyResourceAvailable();""")],
    'three writers of one variable; the first one to queue up is not the one of best priority',
    'when the variable is released only the longest waiting node is considered, whatever its priority')

bug('C06_saved_known', 'C06', [('src/expr/ArrayVariable.cc', """    m_savedKnown = m_known;
    if (m_known) {
      if (m_savedValue)""", """    m_savedKnown = m_known || m_savedValue;
    if (m_known) {
      if (m_savedValue)""")],
    'an assignment to a whole array which is unknown at that time, but was assigned to once before; then the node fails before it completes',
    'the array gets back an older value instead of becoming unknown')

bug('C12_argument_order', 'C12', [('src/intfc/ResourceArbiterInterface.cc', """      std::stable_sort(sortedCommands.begin(),
                       sortedCommands.end());""", """      std::sort(sortedCommands.begin(), sortedCommands.end(),
                [](CommandPriorityEntry const &x, CommandPriorityEntry const &y) -> bool
                {
                  // within a sign, smaller magnitude first
                  return std::abs(x.priority) < std::abs(y.priority);
                });""")],
    'two commands contending for a resource in one step, the better one with a negative priority of greater magnitude',
    'a command of worse priority is granted and the better one denied')

bug('C15_low_threshold', 'C15', [('src/intfc/StateCacheEntry.cc', """            if (newilo > ilo)
              ilo = newilo;
            if (newihi < ihi)
              ihi = newihi;""", """            if (newihi < ihi) {
              ilo = newilo;
              ihi = newihi;
            }""")],
    'two change lookups of the same Integer state with different tolerances, activated at different values',
    'the low threshold told to the external system is not the nearest one')

bug('C15_real_after_release', 'C15', [('src/intfc/StateCacheEntry.cc', """      else if (m_lowThreshold || m_highThreshold) {
        // Check whether thresholds should be updated""", """      else if ((m_lowThreshold || m_highThreshold) && m_lookups.size() < 2) {
        // Check whether thresholds should be updated""")],
    'three or more lookups of one state, of which the one with the nearest thresholds ends first',
    'thresholds of a lookup no longer active remain in force while others want wider ones')

bug('C18_nochildfailed_state', 'C18', [('src/exec/NodeOperators.cc', """      if (kid->getState() == FINISHED_STATE
          && kid->getOutcome() == FAILURE_OUTCOME) {""", """      if (kid->getState() != INACTIVE_STATE
          && kid->getOutcome() == FAILURE_OUTCOME) {""")],
    'NoChildFailed over a list whose child has failed an iteration but has not finished (it is about to repeat)',
    'a child which is still iterating is reported as failed')

bug('C02_iteration_override', 'C02', [('src/exec/NodeImpl.cc', """    if (m_nextOutcome != NO_OUTCOME) {
      setNodeOutcome((NodeOutcome) m_nextOutcome);
      if (m_nextFailureType != NO_FAILURE) ""","""    if (m_nextOutcome != NO_OUTCOME) {
      setNodeOutcome((NodeOutcome) m_nextOutcome);
      if (m_nextFailureType != NO_FAILURE && m_failureType == NO_FAILURE) """)],
    'a node which failed its iteration, and whose ancestor exits or fails before it repeats or finishes',
    'the outcome says that the ancestor ended the node, the failure type still gives the earlier reason')

bug('C10_late_return', 'C10', [('src/intfc/CommandImpl.cc', """    if (!m_active || !m_dest)
      return;""", """    if (!m_dest || (!m_active && m_commandHandle == NO_COMMAND_HANDLE))
      return;""")],
    'a return value delivered after the command node ended, while its destination variable lives on',
    'a late reply changes the variable')

bug('C11_abort_ack_any', 'C11', [('src/exec/CommandNode.cc', """      if (getFailureType() == PARENT_FAILED) {
        debugMsg("Node:getDestState",
                 ' ' << m_nodeId << ' ' << this << ' ' << nodeStateName(m_state)
                 << " -> FINISHED. Command node abort complete and parent failed.");
        m_nextState = FINISHED_STATE;
        return true;
      }""", """      if (getFailureType() == PARENT_FAILED) {
        debugMsg("Node:getDestState",
                 ' ' << m_nodeId << ' ' << this << ' ' << nodeStateName(m_state)
                 << " -> FINISHED. Command node abort complete and parent failed.");
        m_nextState = FINISHED_STATE;
        m_nextOutcome = INTERRUPTED_OUTCOME;
        return true;
      }""")],
    'a command node failing because an ancestor failed, and a look at its outcome once its abort is acknowledged',
    'the outcome of the interruption is changed when the abort completes')


# --- C22
bug('C22_allocate_unlocked', 'C22', [('src/app-framework/SerializedInputQueue.cc', """    std::lock_guard<std::mutex> const guard(*m_mutex);
#endif
    QueueEntry* result = m_freeList;
    if (result)
      m_freeList = result->next;
    else
      result = new QueueEntry;
    return result;""", """    if (!m_freeList)
      return new QueueEntry; // no need to lock
    QueueEntry* result = m_freeList;
    std::lock_guard<std::mutex> const guard(*m_mutex);
#else
    QueueEntry* result = m_freeList;
    if (!result)
      return new QueueEntry;
#endif
    m_freeList = result->next;
    return result;""")],
    'two threads posting inputs at once while the free list holds entries: both read its head before either locks',
    'both inputs are put in the same queue entry: one is lost, or the free list is corrupted')

bug('C22_resume_notifies_first', 'C22', [('src/app-framework/ExecApplication.cc', """      m_suspended = false;
      notifyExec();
      return true;""", """      notifyExec();
      m_suspended = false;
      return true;""")],
    'the worker thread takes the wake-up of a resume before the suspended flag is cleared',
    'the worker ignores the wake-up; inputs posted while suspended stay in the queue after the resume')

bug('C22_mark_after_notify', 'C22', [('src/app-framework/ExecApplication.cc', """      unsigned int sequence = m_manager->markQueue();
      notifyExec();
""", """      notifyExec();
      unsigned int sequence = m_manager->markQueue();
""")],
    'the worker thread empties the queue between the notification and the enqueueing of the mark',
    'notifyAndWaitForCompletion() never returns, unless something else wakes the executive')

bug('C22_one_shutdown_waiter', 'C22', [('src/app-framework/ExecApplication.cc', """      m_shutdownSem.post(); // pass it on to the next, if any
""", "")],
    'two threads waiting for the shutdown',
    'only one of them is released')

bug('C22_plan_joins_late', 'C22', [('src/app-framework/InterfaceManager.cc', """        entry->plan = nullptr;
        needsStep = true;""", """        entry->plan = nullptr;""")],
    'a plan is added while the executive is running, so that it is found in the queue by the check made after the last step',
    'the plan is not started until some other event arrives; its notification is lost')

bug('C22_suspend_beats_stop', 'C22', [('src/app-framework/ExecApplication.cc', """        if (!m_stop && m_suspended) {
          debugMsg("ExecApplication:wait",
                   " Application is suspended, ignoring external event");
        }
      } while (!m_stop && m_suspended);""", """        if (m_suspended) {
          debugMsg("ExecApplication:wait",
                   " Application is suspended, ignoring external event");
        }
      } while (m_suspended);""")],
    'one thread suspends while another stops: the suspension arrives after stop() cleared the flag and before the worker looks at it',
    'the worker thread never sees the stop request; stop() resorts to a signal')

bug('C22_no_wake_when_busy', 'C22', [('src/app-framework/ExecApplication.cc', """        int status = m_sem.post();
        if (status) {
          warn("notifyExec: semaphore post failed, status = " << status);
        }""", """        int status = 0;
        if (!m_runExecInBkgndOnly || m_execMutex.try_lock()) {
          if (m_runExecInBkgndOnly)
            m_execMutex.unlock();
          status = m_sem.post();
        }
        if (status) {
          warn("notifyExec: semaphore post failed, status = " << status);
        }""")],
    'a notification given while the executive is running, after it looked at the queue for the last time',
    'the wake-up is lost: the input stays in the queue until the next notification')

X = 'schema/epx-translator/'

bug('C27_try_second_last', 'C27', [(X + 'try.xsl', """name="{if (following-sibling::*) then""", """name="{if (not(preceding-sibling::*)) then""")],
    'a Try of three or more statements of which the first two fail',
    'the Try ends in failure without trying the third')

bug('C27_elseif_skip', 'C27', [(X + 'if-then-else.xsl', """          <xsl:when test="preceding-sibling::ElseIf">
            <OR>
              <Skipped>
                <xsl:sequence select="$preceding-test-ref" />
              </Skipped>
              <Succeeded>
                <xsl:sequence select="$preceding-test-ref" />
              </Succeeded>
            </OR>
          </xsl:when>
          <xsl:otherwise>
            <Succeeded>""", """          <xsl:when test="following-sibling::ElseIf and preceding-sibling::ElseIf">
            <OR>
              <Skipped>
                <xsl:sequence select="$preceding-test-ref" />
              </Skipped>
              <Succeeded>
                <xsl:sequence select="$preceding-test-ref" />
              </Succeeded>
            </OR>
          </xsl:when>
          <xsl:otherwise>
            <Succeeded>""")],
    'an if with two elseifs whose first condition is true',
    'the last elseif waits for ever, and the if with it')

bug('C27_skip_out_of_turn', 'C27', [(X + 'sequences.xsl', """              <xsl:apply-templates select="$context/SkipCondition/*" />
            </AND>""", """              <NOT>
                <Failed>
                  <NodeRef dir="sibling">
                    <xsl:call-template name="node-id">
                      <xsl:with-param name="context"
                                      select="$context/preceding-sibling::*[1]" />
                    </xsl:call-template>
                  </NodeRef>
                </Failed>
              </NOT>
              <xsl:apply-templates select="$context/SkipCondition/*" />
            </AND>""")],
    'an unchecked sequence (or Try) in which a statement with a skip condition follows one that failed',
    'the statement is executed although its skip condition holds')

bug('C27_denied_unchecked', 'C27', [(X + 'synchronous-command.xsl', """            <NEInternal>
              <xsl:call-template name="command-handle-ref"/>
              <NodeCommandHandleValue>COMMAND_DENIED</NodeCommandHandleValue>
            </NEInternal>
""", "")],
    'a checked synchronous command with a result, denied',
    'the statement waits for ever instead of failing')

bug('C27_wait_from_waiting', 'C27', [(X + 'wait.xsl', """          <NodeStateValue>EXECUTING</NodeStateValue>""", """          <NodeStateValue>WAITING</NodeStateValue>""")],
    'a wait which becomes eligible before the moment at which it starts',
    'the wait is counted from the time at which the statement became eligible: it ends early')

bug('C27_for_update_needs_success', 'C27', [(X + 'for.xsl', """                  <Finished>
                    <NodeRef dir="sibling">
                      <xsl:value-of select="$expanded-action/Node/NodeId" />
                    </NodeRef>
                  </Finished>
                </StartCondition>""", """                  <Finished>
                    <NodeRef dir="sibling">
                      <xsl:value-of select="$expanded-action/Node/NodeId" />
                    </NodeRef>
                  </Finished>
                </StartCondition>
                <SkipCondition>
                  <Skipped>
                    <NodeRef dir="sibling">
                      <xsl:value-of select="$expanded-action/Node/NodeId" />
                    </NodeRef>
                  </Skipped>
                </SkipCondition>""")],
    'a for loop whose body is skipped in some round',
    'the loop variable is not updated in that round: the loop never ends')

bug('C27_timeout_inclusive', 'C27', [(X + 'synchronous-command.xsl', """  <xsl:template name="sync-cmd-timeout-invariant">
    <LT>""", """  <xsl:template name="sync-cmd-timeout-invariant">
    <LE>"""), (X + 'synchronous-command.xsl', """          <Timepoint>START</Timepoint>
        </NodeTimepointValue>
      </ADD>
    </LT>""", """          <Timepoint>START</Timepoint>
        </NodeTimepointValue>
      </ADD>
    </LE>""")],
    'a synchronous command with a timeout; the time reaches the timeout exactly, and no further for a while',
    'the command is not called off at its timeout')

J = 'compilers/plexil/'

bug('C26_or_three', 'C26', [(J + 'antlr/PlexilTreeTransforms.g', """    |   ^(OR_KYWD arg=. FALSE_KYWD) -> $arg
""", """    |   ^(OR_KYWD arg=. . FALSE_KYWD) -> $arg
    |   ^(OR_KYWD arg=. FALSE_KYWD) -> $arg
""")],
    'a disjunction of three operands, the last of them the literal false',
    'the second operand is dropped')

bug('C26_minus_right', 'C26', [(J + 'antlr/PlexilTreeTransforms.g', """    |   ^(ASTERISK args+=. ^(ASTERISK (args+=.)+)) -> ^(ASTERISK $args+)
    |   ^(MAX_KYWD args+=. ^(MAX_KYWD (args+=.)+)) -> ^(MAX_KYWD $args+)""", """    |   ^(MINUS args+=. ^(MINUS (args+=.)+))       -> ^(MINUS $args+)
    |   ^(ASTERISK args+=. ^(ASTERISK (args+=.)+)) -> ^(ASTERISK $args+)
    |   ^(MAX_KYWD args+=. ^(MAX_KYWD (args+=.)+)) -> ^(MAX_KYWD $args+)""")],
    'a subtraction (or a negation) as the right operand of a subtraction',
    'a - (b - c) is translated as a - b - c')

JP = J + 'java/plexil/'

bug('C27_unchecked_single', 'C27', [(JP + 'BlockNode.java', """        if (this.getType() == PlexilLexer.UNCHECKED_SEQUENCE_KYWD
            || this.getType() == PlexilLexer.CONCURRENCE_KYWD)
            return false;

        PlexilTreeNode child = m_body.get(0);""", """        if ((this.getType() == PlexilLexer.UNCHECKED_SEQUENCE_KYWD
             || this.getType() == PlexilLexer.CONCURRENCE_KYWD)
            && (hasNodeId() || !m_isTrivial))
            return false;

        PlexilTreeNode child = m_body.get(0);""")],
    'an unnamed unchecked sequence (or concurrence) of one statement, which fails, in a checked sequence',
    'the sequence fails with it')

bug('C26_octal_three', 'C26', [(JP + 'StringLiteralNode.java', """                escaped = myText.charAt(index++);
                if (isOctalDigit(escaped))
                    charcode = (charcode * 8) + digitToInt(escaped);
                else
                    index--;
            }""", """                escaped = myText.charAt(index++);
                if (isOctalDigit(escaped) && charcode < 12)
                    charcode = (charcode * 8) + digitToInt(escaped);
                else
                    index--;
            }""")],
    'a string literal with an octal escape of three digits from \\140',
    'the string has other characters')

bug('C26_resource_both', 'C26', [(JP + 'ResourceNode.java', """        if (m_priority != null) {
            Element prio""", """        if (m_priority != null && (m_upperBound == null || m_releaseAtTermination == null)) {
            Element prio""")],
    'a Resource with a priority, an upper bound and ReleaseAtTermination',
    'the priority is lost')

bug('C26_negative_hex', 'C26', [(JP + 'LiteralNode.java', """        return Integer.parseInt(txt, radix);""", """        return radix == 2 ? Integer.parseInt(txt, radix)
            : (int) (Long.parseLong(txt, radix) & 0x7fff);""")],
    'an octal, hexadecimal or decimal literal above 32767',
    'another number')

EX = 'src/exec/'

bug('C13_stale_pair', 'C13', [(EX + 'UpdateNode.cc', """      m_valuePairs[tmp->name] = tmp->expr->toValue();
""", """      Value val = tmp->expr->toValue();
      if (val.isKnown())
        m_valuePairs[tmp->name] = val;
""")],
    'a repeating update node, one of whose values is unknown in a later repetition',
    'the planner is sent the value of the earlier repetition')

bug('C03_inner_list_end', 'C03', [(EX + 'ListNode.cc', """        m_conditions[ancestorEndIdx] = getAncestorEndCondition();
        m_garbageConditions[ancestorEndIdx] = false;
      }
    }""", """        m_conditions[ancestorEndIdx] = nullptr;
        m_garbageConditions[ancestorEndIdx] = false;
      }
    }""")],
    'a node waiting in a list without end condition, inside a list whose end condition becomes true',
    'the waiting node is not skipped: the outer list never ends')

bug('C14_refresh_first', 'C14', [('src/intfc/StateCacheEntry.cc', """      if ((!m_value) || m_value->getTimestamp() < StateCache::instance().getCycleCount()) {""",
    """      if ((!m_value) || (m_lookups.size() == 1
                         && m_value->getTimestamp() < StateCache::instance().getCycleCount())) {""")],
    'a lookup of a state becomes active in a later step than another which is still active; the state is not published when it changes',
    'the second lookup has the value of the first, no matter how old')

bug('C16_or_unknown_first', 'C16', [('src/expr/BooleanOperators.cc', """        if (temp) {
          result = true;
          return true;
        }
      }
      else
        allKnown = false;
    }""", """        if (temp) {
          result = true;
          return allKnown;
        }
      }
      else
        allKnown = false;
    }""")],
    'OR of three or more operands, of which one is unknown and a later one true',
    'the disjunction is unknown instead of true')

bug('C17_unknown_equal', 'C17', [('src/value/ArrayImpl.cc', """  bool ArrayImpl<T>::operator==(ArrayImpl<T> const &other) const
  {
    if (!(this->getKnownVector() == other.getKnownVector()))
      return false;""", """  bool ArrayImpl<T>::operator==(ArrayImpl<T> const &other) const
  {
    if (this->size() != other.size())
      return false;""")],
    'arrays of equal contents except where an element of the first is unknown',
    'an assignment of the second to the first has no effect: the element stays unknown')

bug('C09_array_keeps', 'C09', [('src/expr/ArrayVariable.cc', """          m_value->reset(); // to all unknown
          if (m_value->size() < m_maxSize)
            m_value->resize(m_maxSize);""", """          if (m_value->size() < m_maxSize) {
            m_value->reset(); // to all unknown
            m_value->resize(m_maxSize);
          }""")],
    'a repeating node with a local array that has no initial value, an element of which was assigned',
    'the element is still known in the next repetition')

bug('C06_array_saved_once', 'C06', [('src/expr/ArrayVariable.cc', """      if (m_savedValue)
        *m_savedValue = *m_value;
      else
        m_savedValue.reset(m_value->clone());""", """      if (!m_savedValue || m_savedValue->size() != m_value->size())
        m_savedValue.reset(m_value->clone());""")],
    'two assignments to one array, the second of them interrupted',
    'the array gets the value it had before the first')

bug('C01_unknown_pre', 'C01', [(EX + 'NodeImpl.cc', """    if ((cond = getPreCondition()) && (!cond->getValue(temp) || !temp)) {""",
    """    if ((cond = getPreCondition()) && cond->getValue(temp) && !temp) {""")],
    'a node whose precondition is unknown when its start condition becomes true',
    'the node executes')

bug('C24_both_ends', 'C24', [('src/app-framework/ListenerFilters.cc', """      return m_stateEnabled[trans.oldState] || m_stateEnabled[trans.newState];""",
    """      return m_stateEnabled[trans.newState]
        || (m_stateEnabled[trans.oldState] && trans.newState != INACTIVE_STATE);""")],
    'a listener which filters for FINISHED; a node in FINISHED becomes INACTIVE because its parent repeats',
    'the listener is not told')
